package main

import (
	"fmt"
	"math"
	"strings"
	"time"
)

// javaThrows says whether validating v reaches no_sparse, the one rule Java
// does not implement.
func javaThrows(v *MVal) bool {
	if v == nil || v.Nil || v.M.Disabled || v.M.Ignored || v.M.NoPGV {
		return false
	}
	sub := func(r *Rules, x any) bool {
		mv, _ := x.(*MVal)
		return mv != nil && !(r != nil && r.Msg != nil && r.Msg.Skip) && javaThrows(mv)
	}
	for _, f := range v.M.Fields {
		_, set := v.F[f]
		if f.Oneof != nil && !set {
			continue
		}
		r := f.R
		if r == nil {
			r = &Rules{}
		}
		switch f.Label {
		case Repeated:
			var items *Rules
			if r.Rep != nil {
				items = r.Rep.Items
			}
			l, _ := v.F[f].([]any)
			for _, x := range l {
				if sub(items, x) {
					return true
				}
			}
		case Map:
			l, _ := v.F[f].([]MapEnt)
			var vals *Rules
			if r.Map != nil {
				vals = r.Map.Values
				if r.Map.NoSparse && !(r.Map.IgnoreEmpty && len(l) == 0) {
					return true
				}
			}
			for _, e := range l {
				if sub(vals, e.V) {
					return true
				}
			}
		default:
			if f.T.K == KMsg && sub(r, v.getSub(f)) {
				return true
			}
		}
	}
	return false
}

// javaUnsettled: besides what C++ leaves open, NaN and signed zeros (boxed
// equality and order tell them apart) and corners of the URI and e-mail
// grammars, which java.net.URI and commons-validator decide.
func javaUnsettled(v *MVal) bool {
	if ccUnsettled(v) {
		return true
	}
	return anyScalar(v, func(x any) bool {
		switch y := x.(type) {
		case float32:
			return y != y || y == 0 && math.Signbit(float64(y))
		case float64:
			return y != y || y == 0 && math.Signbit(y)
		case string:
			return javaGrammarCorner(y)
		}
		return false
	})
}

// javaGrammarCorner: e-mail addresses beyond 254 bytes, empty authorities and
// ports that are no numbers (java.net.URI reads RFC 2396).
func javaGrammarCorner(s string) bool {
	if len(s) > 254 && strings.Contains(s, "@") {
		return true
	}
	i := strings.Index(s, "//")
	if i < 0 {
		return false
	}
	a := s[i+2:]
	if j := strings.IndexAny(a, "/?#"); j >= 0 {
		a = a[:j]
	}
	if a == "" {
		return true
	}
	a = a[strings.LastIndexAny(a, "]@")+1:]
	if j := strings.Index(a, ":"); j >= 0 {
		for _, c := range a[j+1:] {
			if c < '0' || c > '9' {
				return true
			}
		}
	}
	return false
}

// javaMust: Java does not check the range of Durations.
func javaMust(e *Expect) bool {
	for _, v := range e.V {
		if v.Opt || v.Tag == "invalid_duration" || v.Nested != nil && !javaMust(v.Nested) {
			continue
		}
		return true
	}
	return false
}

// javaEnumGap: an enum value without a name, under a rule that lists its
// number (recorded finding: Java compares names).
func javaEnumGap(v *MVal) bool {
	bad := func(r *Rules, t Type, x any) bool {
		if r == nil || r.Enum == nil || t.K != KEnum {
			return false
		}
		n, ok := x.(EnumNum)
		if !ok || t.Enum.has(int32(n)) {
			return false
		}
		for _, c := range append(append([]int32{}, r.Enum.In...), r.Enum.NotIn...) {
			if c == int32(n) {
				return true
			}
		}
		return r.Enum.Const != nil && *r.Enum.Const == int32(n)
	}
	if v == nil || v.Nil {
		return false
	}
	for f, x := range v.F {
		r := f.R
		if r == nil {
			r = &Rules{}
		}
		switch y := x.(type) {
		case []any:
			for _, z := range y {
				if m, ok := z.(*MVal); ok && javaEnumGap(m) || r.Rep != nil && bad(r.Rep.Items, f.T, z) {
					return true
				}
			}
		case []MapEnt:
			for _, z := range y {
				if m, ok := z.V.(*MVal); ok && javaEnumGap(m) || r.Map != nil && bad(r.Map.Values, f.T, z.V) {
					return true
				}
			}
		case *MVal:
			if javaEnumGap(y) {
				return true
			}
		default:
			if bad(r, f.T, y) {
				return true
			}
		}
	}
	return false
}

func anyScalar(v *MVal, p func(any) bool) bool {
	is := func(x any) bool {
		if y, ok := x.(*MVal); ok {
			return anyScalar(y, p)
		}
		return p(x)
	}
	if v == nil || v.Nil {
		return false
	}
	for _, x := range v.F {
		switch y := x.(type) {
		case []any:
			for _, z := range y {
				if is(z) {
					return true
				}
			}
		case []MapEnt:
			for _, z := range y {
				if is(z.V) || is(z.K) {
					return true
				}
			}
		default:
			if is(y) {
				return true
			}
		}
	}
	return false
}

// badTimes: a Duration or Timestamp outside its documented range.
func badTimes(v *MVal) bool {
	if v == nil || v.Nil {
		return false
	}
	switch v.M.WKT {
	case "Duration":
		return !durValid(snOf(v))
	case "Timestamp":
		return !tsValid(snOf(v))
	}
	for _, x := range v.F {
		switch y := x.(type) {
		case []any:
			for _, z := range y {
				if m, ok := z.(*MVal); ok && badTimes(m) {
					return true
				}
			}
		case []MapEnt:
			for _, z := range y {
				if m, ok := z.V.(*MVal); ok && badTimes(m) {
					return true
				}
			}
		case *MVal:
			if badTimes(y) {
				return true
			}
		}
	}
	return false
}

// javaFields are the full names of the violated fields and oneofs.
func javaFields(e *Expect, out map[string]bool) {
	for _, v := range e.V {
		if v.Nested != nil {
			javaFields(v.Nested, out)
			continue
		}
		if v.F != nil {
			out["."+v.F.M.Full+"."+v.F.Name] = true
			continue
		}
		if e.M != nil {
			for _, o := range e.M.Oneofs {
				if goCamel(o.Name) == v.Field {
					out["."+e.M.Full+"."+o.Name] = true
				}
			}
		}
	}
}

func judgeJava(c *Case, o *JavaObs, nows []SN) string {
	if o == nil {
		return "no observation recorded for the case"
	}
	var e *Expect
	must, may := true, false
	fields := map[string]bool{}
	for _, n := range nows {
		e = (&Ctx{Now: n}).evalMsg(c.V)
		must = must && javaMust(e)
		may = may || e.may()
		javaFields(e, fields)
	}
	throws := javaThrows(c.V)
	switch o.Code {
	case 'T':
		if throws {
			return "accepted although no_sparse applies; expected UnimplementedException"
		}
		if must {
			return "accepted a message that violates its rules: " + showExp(e)
		}
	case 'U':
		if !throws {
			return "unexpected UnimplementedException: " + o.Msg
		}
	case 'F':
		if !may {
			return "rejected a conforming message: " + o.Msg
		}
		if !fields[o.Field] {
			return fmt.Sprintf("the exception names field %s, not one of the violated fields %v", o.Field, sortedKeys(fields))
		}
	default:
		if o.Field == "java.lang.IllegalArgumentException" && badTimes(c.V) && may {
			return ""
		}
		return "exception: " + o.Msg
	}
	return ""
}

func javaNows() []SN {
	t := time.Now().Unix()
	return []SN{{t - 900, 0}, {t + 900, 0}}
}

func (c *CheckCtx) javaJudgeAll(s *Suite, cs []*Case, obs map[int]*JavaObs) error {
	c.add("messages_types", countMsgs(s))
	c.add("rule_fields", countRuleFields(s))
	nows := javaNows()
	acc, rej, thr := 0, 0, 0
	for _, x := range cs {
		o := obs[x.ID]
		if o != nil && o.Code == 'B' {
			c.add("undecodable_cases_skipped", 1)
			continue
		}
		if d := judgeJava(x, o, nows); d != "" {
			if javaUnsettled(x.V) && o != nil && (o.Code == 'T' || o.Code == 'F') {
				c.add("unspecified_verdicts_not_judged", 1)
				continue
			}
			data := c.caseData(x)
			if o != nil {
				data["observed"] = string(o.Code) + " " + o.Field + " " + o.Msg
			}
			key := fmt.Sprintf("%s:%s:%s", x.M.Full, x.Why, firstTag(x))
			if javaEnumGap(x.V) && o != nil && (o.Code == 'T' || o.Code == 'F') {
				key = "special:enum-undeclared-constant"
			}
			c.violation(key, d, data)
			continue
		}
		c.Evals++
		switch o.Code {
		case 'T':
			acc++
		case 'F':
			rej++
		case 'U':
			thr++
		}
		e := (&Ctx{Now: nows[0]}).evalMsg(x.V)
		if e.must() || !e.may() {
			c.nontrivial(x.M.Full, x.Why, string(o.Code), string(x.V.encode()))
		}
		if len(c.Samples) < 12 && (len(c.Samples)%2 == 0) == (o.Code == 'F') && x.Why != "empty" {
			c.sample(map[string]any{"message": x.M.Full, "value": trunc(x.V.String(), 300), "observed": string(o.Code) + " " + o.Field + " " + o.Msg, "expected": showExp(e)})
		}
	}
	c.add("observed_rejections", rej)
	c.add("observed_acceptances", acc)
	c.add("observed_unimplemented", thr)
	if acc == 0 || rej == 0 {
		return infra("vacuous run: %d acceptances, %d rejections", acc, rej)
	}
	return nil
}

// javaSuites is the Java part of the corpus.
func javaSuites(c *CheckCtx, g *Gen, tag string) (*Suite, []*Case) {
	all := &Suite{}
	var cs []*Case
	take := func(s *Suite, x []*Case) {
		all.Files = append(all.Files, s.Files...)
		for _, y := range x {
			if !hasNil(y.V) {
				cs = append(cs, y)
			}
		}
	}
	g.NoNil = true
	g.PerFile = 20
	// far enough from the clock of the run that no edge of a window (now, 1 s,
	// 5.5 s, 1 h) is crossed while it lasts
	g.At = time.Now().UnixNano() - fixedNow.S*1000000000 - 450*1000000000
	mix := 8 + 30*c.Rich
	s := numSuite(g, "jnum"+tag, 2+3*c.Rich)
	take(s, s.cases(g, 0, mix))
	s = strSuite(g, "jstr"+tag, strOpts{})
	take(s, s.cases(g, 0, mix))
	s = fmtSuite(g, "jwkf"+tag)
	take(s, s.cases(g, 1, mix))
	s = contSuite(g, "jcont"+tag)
	take(s, s.cases(g, 1, mix))
	s = msgSuite(g, "jmsg"+tag)
	take(s, append(s.cases(g, 2, mix), nodeCases(g, s, 200+1000*c.Rich)...))
	s = wktSuite(g, "jwkt"+tag)
	take(s, s.cases(g, 0, mix))
	ns := javaNameSuite("jname" + tag)
	take(ns, ns.cases(g, 1, mix))
	return javaFinish(g, all, cs)
}

// javaFinish adds the messages without validators and varies the Java options.
func javaFinish(g *Gen, all *Suite, cs []*Case) (*Suite, []*Case) {
	// messages that have no validator are valid, whatever they hold
	for _, f := range all.Files {
		for _, m := range f.allMsgs() {
			if (m.Ignored || m.NoPGV) && len(m.Fields) > 0 {
				cs = append(cs, g.casesFor(m, 0, 3)...)
			}
		}
	}
	for i, x := range cs {
		x.ID = i
	}
	for i, f := range all.Files {
		if f.JavaPkg != nil {
			continue
		}
		switch i % 4 {
		case 1:
			f.JavaPkg = ptr(fmt.Sprintf("org.verif.j%d", i%7))
		case 2:
			f.JavaMulti = true
			f.JavaPkg = ptr("org.verif.multi." + strings.ReplaceAll(f.Pkg, ".", "_") + fmt.Sprint(i))
		case 3:
			f.JavaOuter = fmt.Sprintf("Outer_x%d", i)
		}
	}
	return all, cs
}

// javaNameSuite: names that the Java generator has to turn into protoc's.
func javaNameSuite(name string) *Suite {
	s := &Suite{}
	subs := []string{"HTTPServer.v1", "foo-bar_baz9qux", "a__b", "UPPER", "x1y2", "clash_name", "many9lower", "MultiUP"}
	msgs := []string{"V1alpha", "lower_case", "X9y", "HTTPThing", "A_B", "Tail_", "camelLow", "Under__Score", "M2", "DEEPMsg"}
	flds := []string{"ID", "class", "foo__bar", "x1y", "HTTPPort", "mixedCase", "get_it", "URL_list", "trail_", "v2", "descriptor_for_type", "serialized_size", "value9thing", "a_b_c", "_lead", "Q", "z9", "cached_size", "k_1_2", "camelABC"}
	for i, sub := range subs {
		f := s.file(name, sub, "proto3")
		f.Pkg = fmt.Sprintf("v.%s.p%d", name, i)
		f.GoPkg = fmt.Sprintf("vgen/v/%s/p%d;p%d", name, i, i)
		f.JavaPkg = ptr(fmt.Sprintf("org.verif.%s.P%d", name, i))
		f.JavaMulti = i%2 == 1
		if i == 5 {
			f.msg("ClashName").f("v", KInt32, numR(&NumRules{K: KInt32, Gt: int32(1)}))
		}
		if i == 4 {
			o := f.msg("Outer")
			o.nested("X1Y2").f("v", KInt32, numR(&NumRules{K: KInt32, Gt: int32(1)}))
		}
		for j, mn := range msgs {
			m := f.msg(mn)
			o := m.oneof([]string{"my_Oneof", "oneOf2x", "klass", "OO", "o_1z"}[(i+j)%5], j%2 == 0)
			for k, fn := range flds {
				switch (i + j + k) % 5 {
				case 0:
					m.f(fn, KInt32, numR(&NumRules{K: KInt32, Gt: int32(-1)}))
				case 1:
					m.f(fn, KString, strR(&StrRules{MaxLen: u64(2)})).in(o)
				case 2:
					m.rep(fn, Type{K: KInt64}, repR(&RepRules{Max: u64(1), Items: numR(&NumRules{K: KInt64, NotIn: []any{int64(3)}})}))
				case 3:
					m.mp(fn, KString, Type{K: KInt32}, mapR(&MapRules{Max: u64(1), Keys: strR(&StrRules{MinLen: u64(1)})}))
				case 4:
					if j > 0 {
						m.fm(fn, f.Msgs[0], msgR(false, k%2 == 0))
					} else {
						m.fm(fn, wWrap[KInt32], numR(&NumRules{K: KInt32, Lte: int32(7)}))
					}
				}
			}
		}
		// an ignored message, reached by a field and directly
		ig := f.msg("Skipped")
		ig.Ignored = true
		ig.f("v", KInt32, numR(&NumRules{K: KInt32, Gt: int32(1)}))
		f.msg("UsesSkipped").fm("s", ig, nil)
	}
	return s
}

func init() {
	checks["C15"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "the Go corpus restricted to what Java messages can hold, run through the generated Java validators and the repository's Java runtime; a case is non-trivial when the reference semantics settles its verdict; distinct by message type, varied field, outcome and bytes"
		c.Assume = []string{"protobuf-java, re2j, commons-validator and gRPC are stand-ins written for this check (the libraries are not installed); accessor names are compared with protoc's own Java output", "strings that are not UTF-8, unanchored patterns and NaN among listed constants are judged only where every reading agrees"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed + 15)
		g.Rich = c.Rich
		s, cs := javaSuites(c, g, "")
		b, err := c.W.buildJava("java", s)
		if err != nil {
			return c.broken(err)
		}
		obs, err := c.W.runJava(b, cs)
		if err != nil {
			return err
		}
		return c.javaJudgeAll(s, cs, obs)
	}}
}
