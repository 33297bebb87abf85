package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// C16: validator lookup and gRPC interceptors, judged over event logs.

// noVal: validating v asks an index for the validator of a message type that
// has none; with wkt, or may ask for that of a well-known type.
func noVal(v *MVal, wkt bool) bool {
	if v == nil || v.Nil || v.M.Disabled {
		return false
	}
	sub := func(r *Rules, x any) bool {
		m, ok := x.(*MVal)
		if !ok || m == nil || m.Nil || r != nil && r.Msg != nil && r.Msg.Skip {
			return false
		}
		if m.M.WKT != "" {
			return wkt
		}
		return m.M.Ignored || m.M.NoPGV || noVal(m, wkt)
	}
	for f, x := range v.F {
		r := f.R
		if r == nil {
			r = &Rules{}
		}
		switch y := x.(type) {
		case []any:
			for _, z := range y {
				var it *Rules
				if r.Rep != nil {
					it = r.Rep.Items
				}
				if sub(it, z) {
					return true
				}
			}
		case []MapEnt:
			for _, z := range y {
				var vr *Rules
				if r.Map != nil {
					vr = r.Map.Values
				}
				if sub(vr, z.V) {
					return true
				}
			}
		default:
			if sub(r, y) {
				return true
			}
		}
	}
	return false
}

func unhex(s string) string {
	b, _ := hex.DecodeString(s)
	return string(b)
}

type lookupVerdict struct{ code, fb, field, msg, reason string }

func (c *CheckCtx) lookupCheck(b *JavaBuild, cs []*Case) error {
	// a few messages of every type: the first lookups are what matters
	per := map[*Msg][2]int{}
	var some []*Case
	nows := javaNows()
	for _, x := range cs {
		e := (&Ctx{Now: nows[0]}).evalMsg(x.V)
		if javaUnsettled(x.V) || badTimes(x.V) || javaEnumGap(x.V) || javaThrows(x.V) || e.may() != e.must() || hasNow(x.M) {
			continue
		}
		p := per[x.M]
		k := 0
		if e.must() {
			k = 1
		}
		if p[k] >= 4 {
			continue
		}
		p[k]++
		per[x.M] = p
		some = append(some, x)
	}
	rounds := 32 * (1 + 4*c.Rich)
	lines, err := c.W.javaDriver(b, some, "lookup", fmt.Sprint(rounds), fmt.Sprint(c.Seed))
	if err != nil {
		return err
	}
	byID := map[int]*Case{}
	for _, x := range some {
		byID[x.ID] = x
	}
	got := map[string]lookupVerdict{}
	n := map[string]int{}
	for _, l := range lines {
		p := strings.Split(l, "\t")
		switch p[0] {
		case "IDENT":
			c.violation("lookup:"+p[1], p[2], nil)
		case "STATS":
			for i := 1; i+1 < len(p); i += 2 {
				v, _ := strconv.Atoi(p[i+1])
				c.add(p[i], v)
			}
		case "VERDICT":
			id, _ := strconv.Atoi(p[1])
			x := byID[id]
			v := lookupVerdict{p[4], p[3], unhex(p[5]), unhex(p[6]), unhex(p[7])}
			k := p[1] + ":" + p[2]
			n[p[2]+"/"+v.fb]++
			if o, ok := got[k]; ok && (o.code != v.code || o.field != v.field || o.fb != v.fb) {
				c.violation(fmt.Sprintf("lookup:%s:unstable", x.M.Full), fmt.Sprintf("index kind %s: the outcome depends on the lookup: %v and %v", p[2], o, v), c.caseData(x))
				continue
			}
			if _, ok := got[k]; ok {
				continue
			}
			got[k] = v
			if d := judgeLookup(x, p[2], v, nows[0]); d != "" {
				c.violation(fmt.Sprintf("lookup:%s:%s:%s", x.M.Full, p[2], firstTag(x)), d, c.caseData(x))
				continue
			}
			c.Evals++
			c.nontrivial("lookup", p[2], x.M.Full, v.code, v.fb, string(x.V.encode()))
			if c.Evals%997 == 1 && len(c.Samples) < 8 {
				c.sample(map[string]any{"index": "reflective, fallback kind " + p[2], "message": x.M.Full, "value": trunc(x.V.String(), 200), "consulted": v.fb, "observed": v.code + " " + v.field})
			}
		}
	}
	c.Cov["lookup_outcomes"] = n
	for _, x := range some {
		for k := 0; k < 4; k++ {
			if _, ok := got[fmt.Sprintf("%d:%d", x.ID, k)]; !ok {
				return infra("no lookup observed for case %d, index kind %d", x.ID, k)
			}
		}
	}
	if n["2/own"] == 0 || n["2/fallback"] == 0 || n["3/nested"] == 0 {
		return infra("vacuous lookups: %v", n)
	}
	c.add("message_types_looked_up", len(per))
	return nil
}

func judgeLookup(x *Case, kind string, v lookupVerdict, now SN) string {
	has := !x.M.Ignored && !x.M.NoPGV
	reject := kind == "1" || kind == "3"
	if kind == "2" || kind == "3" {
		switch {
		case !has && v.fb != "fallback":
			return "a type without validator did not get the fallback's: " + v.fb
		case has && v.fb != "own" && !(v.fb == "nested" && noVal(x.V, true)):
			return "a type with a validator got " + v.fb
		}
	}
	fb := "UNKNOWN"
	if kind == "3" {
		fb = "fallback."
	}
	isFB := v.code == "F" && strings.HasPrefix(v.field, fb)
	if !has {
		if reject && !isFB || !reject && v.code != "T" {
			return fmt.Sprintf("a type without validator: outcome %s %s %s; expected the fallback's", v.code, v.field, v.msg)
		}
		return ""
	}
	nv := reject && noVal(x.V, true)
	e := (&Ctx{Now: now}).evalMsg(x.V)
	switch v.code {
	case "T":
		if e.must() {
			return "accepted a message that violates its rules: " + showExp(e)
		}
		if reject && noVal(x.V, false) {
			return "accepted although an embedded message has no validator and the fallback rejects"
		}
	case "F":
		if isFB && nv {
			return ""
		}
		if !e.may() {
			return "rejected a conforming message: " + v.msg
		}
		fields := map[string]bool{}
		javaFields(e, fields)
		if !fields[v.field] {
			return fmt.Sprintf("the exception names field %s, not one of %v: another type's validator?", v.field, sortedKeys(fields))
		}
	default:
		return "exception: " + v.field + " " + v.msg
	}
	return ""
}

func hasNow(m *Msg) bool {
	seen := map[*Msg]bool{}
	var in func(m *Msg) bool
	rul := func(r *Rules) bool {
		return r != nil && r.Ts != nil && (r.Ts.LtNow || r.Ts.GtNow || r.Ts.Within != nil)
	}
	in = func(m *Msg) bool {
		if seen[m] {
			return false
		}
		seen[m] = true
		for _, f := range m.Fields {
			r := f.R
			if rul(r) || r != nil && r.Rep != nil && rul(r.Rep.Items) || r != nil && r.Map != nil && rul(r.Map.Values) {
				return true
			}
			if f.T.K == KMsg && in(f.T.Msg) {
				return true
			}
		}
		return false
	}
	return in(m)
}

// ---- explicit index ----

func (c *CheckCtx) explicitCheck(b *JavaBuild, cs []*Case) error {
	var some []*Case
	seen := map[*Msg]int{}
	for _, x := range cs {
		if seen[x.M] < 2 {
			seen[x.M]++
			some = append(some, x)
		}
	}
	lines, err := c.W.javaDriver(b, some, "explicit", fmt.Sprint(2000*(1+8*c.Rich)), fmt.Sprint(c.Seed))
	if err != nil {
		return err
	}
	type impl struct {
		n      string
		reject bool
	}
	type state struct {
		cur  map[string]impl
		hist []string
	}
	st := map[string]*state{}
	outcomes := map[string]int{}
	for _, l := range lines {
		p := strings.Split(l, "\t")
		switch p[0] {
		case "IDENT":
			c.violation("explicit:"+p[1], p[2], nil)
		case "STATS":
			for i := 1; i+1 < len(p); i += 2 {
				v, _ := strconv.Atoi(p[i+1])
				c.add(p[i], v)
			}
		case "X":
			s := st[p[1]]
			if s == nil {
				s = &state{cur: map[string]impl{}}
				st[p[1]] = s
			}
			kind, op, cl := p[2], p[3], p[4]
			s.hist = append(s.hist, strings.Join(p[3:], " "))
			bad := ""
			switch op {
			case "add":
				s.cur[cl] = impl{p[5], p[6] == "true"}
				if p[7] != "true" {
					bad = "add does not return the index"
				}
			case "get":
				if p[5] != "true" {
					bad = "validatorFor returns another validator than before"
				}
			case "assert":
				im, ok := s.cur[cl]
				wantO, wantRan := "T", ""
				switch {
				case ok:
					wantRan = "impl" + im.n + ","
					if im.reject {
						wantO = "F"
					}
				case kind == "1":
					wantO = "F"
				case kind == "2":
					wantRan = "fallback,"
				case kind == "3":
					wantO, wantRan = "F", "fallback,"
				}
				outcomes[fmt.Sprintf("kind%s impl=%v %s", kind, ok, wantO)]++
				if p[5] != wantO || p[6] != wantRan {
					bad = fmt.Sprintf("assertValid of %s: outcome %s after running [%s]; expected %s after [%s]", cl, p[5], p[6], wantO, wantRan)
				}
				c.Evals++
				c.nontrivial("explicit", p[1], fmt.Sprint(len(s.hist)))
			}
			if bad != "" {
				c.violation(fmt.Sprintf("explicit:kind%s:%s", kind, op), bad, map[string]any{"history": s.hist, "fallback_kind": kind})
			}
		}
	}
	c.Cov["explicit_index_outcomes"] = outcomes
	if len(outcomes) < 8 {
		return infra("vacuous explicit index run: %v", outcomes)
	}
	c.add("explicit_index_histories", len(st))
	return nil
}

// ---- gRPC ----

func (c *CheckCtx) grpcCheck(b *JavaBuild, cs []*Case) error {
	nows := javaNows()
	var good, bad, some []*Case
	for _, x := range cs {
		e := (&Ctx{Now: nows[0]}).evalMsg(x.V)
		if javaUnsettled(x.V) || badTimes(x.V) || javaEnumGap(x.V) || e.may() != e.must() || hasNow(x.M) {
			continue
		}
		if e.must() || javaThrows(x.V) {
			bad = append(bad, x)
		} else {
			good = append(good, x)
		}
	}
	g := newGen(c.Seed + 77)
	pick := func(l []*Case, n int) (out []*Case) {
		for i := 0; i < n; i++ {
			out = append(out, l[g.Intn(len(l))])
		}
		return
	}
	good, bad = pick(good, 600), pick(bad, 600)
	some = append(append(some, good...), bad...)
	uniq := map[int]*Case{}
	for _, x := range some {
		uniq[x.ID] = x
	}
	some = some[:0]
	for _, x := range uniq {
		some = append(some, x)
	}
	sort.Slice(some, func(i, j int) bool { return some[i].ID < some[j].ID })

	var sb strings.Builder
	n := 6000 * (1 + 8*c.Rich)
	scripts := map[string][]string{}
	kinds := map[string]string{}
	for i := 0; i < n; i++ {
		kind := "S"
		if i%3 == 2 {
			kind = "C"
		}
		var ev []string
		rejects := g.Intn(3)
		for j, m := 0, 1+g.Intn(9); j < m; j++ {
			switch k := g.Intn(12); {
			case k < 6:
				l := good
				if g.Intn(4) < rejects {
					l = bad
				}
				ev = append(ev, fmt.Sprintf("m%d", l[g.Intn(len(l))].ID))
			case k == 6:
				ev = append(ev, fmt.Sprintf("b%d", good[g.Intn(len(good))].ID))
			default:
				ev = append(ev, []string{"h", "c", "d", "r", "h"}[k-7])
			}
		}
		id := fmt.Sprint(i)
		scripts[id], kinds[id] = ev, kind
		fmt.Fprintf(&sb, "%s %s %s\n", id, kind, strings.Join(ev, " "))
	}
	sf := filepath.Join(b.Dir, "scripts.txt")
	writeFile(sf, sb.String())
	lines, err := c.W.javaDriver(b, some, "grpc", sf, fmt.Sprint(c.Seed))
	if err != nil {
		return err
	}
	os.Remove(sf)
	verd := map[string]lookupVerdict{}
	seen := 0
	shapes := map[string]int{}
	for _, l := range lines {
		p := strings.Split(l, "\t")
		switch p[0] {
		case "VERDICT":
			id, _ := strconv.Atoi(p[1])
			v := lookupVerdict{p[4], p[3], unhex(p[5]), unhex(p[6]), unhex(p[7])}
			verd[p[1]] = v
			x := uniq[id]
			e := (&Ctx{Now: nows[0]}).evalMsg(x.V)
			if (v.code == "T") != !(e.must() || javaThrows(x.V)) {
				c.violation("grpc:verdict:"+x.M.Full, "the validator's verdict is "+v.code+", expected "+showExp(e), c.caseData(x))
			}
		case "CALL":
			seen++
			ev := scripts[p[1]]
			d, aborted := judgeCall(kinds[p[1]], ev, p[2], verd)
			if d != "" {
				c.violation("grpc:"+kinds[p[1]]+":"+callShape(ev, verd), d, map[string]any{"script": ev, "observed": p[2]})
				continue
			}
			c.Evals++
			sh := kinds[p[1]] + callShape(ev, verd)
			if shapes[sh] == 0 {
				c.nontrivial("grpc", sh)
			}
			shapes[sh]++
			if aborted {
				c.add("calls_with_a_rejected_message", 1)
			}
			if seen%1500 == 1 && len(c.Samples) < 14 {
				c.sample(map[string]any{"side": kinds[p[1]], "events": ev, "observed": trunc(p[2], 500)})
			}
		}
	}
	if seen != n {
		return infra("%d of %d calls observed", seen, n)
	}
	c.add("calls", seen)
	c.add("distinct_call_shapes", len(shapes))
	return nil
}

func callShape(ev []string, verd map[string]lookupVerdict) string {
	var b strings.Builder
	for _, e := range ev {
		switch e[0] {
		case 'm':
			if verd[e[1:]].code == "T" {
				b.WriteByte('v')
			} else {
				b.WriteByte('i')
			}
		default:
			b.WriteByte(e[0])
		}
	}
	return b.String()
}

func hexTrunc(s string) string {
	// what the driver logs: at most 400 UTF-16 units; only compared when shorter
	return hex.EncodeToString([]byte(s))
}

func judgeCall(kind string, ev []string, obs string, verd map[string]lookupVerdict) (string, bool) {
	parts := strings.Split(obs, " ")
	if len(parts) != len(ev)+1 {
		return fmt.Sprintf("%d events observed, expected %d: %s", len(parts)-1, len(ev), obs), false
	}
	if parts[0] != "start;" {
		return "starting the call: " + parts[0], false
	}
	aborted := false
	for i, e := range ev {
		eff := parts[i+1][strings.Index(parts[i+1], "=")+1:]
		var want string
		any := false
		switch {
		case e[0] == 'm' || e[0] == 'b':
			v := verd[e[1:]]
			detail := fmt.Sprintf("INVALID_ARGUMENT|%s|3|%s|v:%s:%s", hexTrunc(v.msg), hexTrunc(v.msg), hexTrunc(v.field), hexTrunc(v.reason))
			switch {
			case kind == "S" && aborted:
			case v.code == "T" && e[0] == 'b':
				want = "deliver;apperror;"
			case v.code == "T":
				want = "deliver;"
			case kind == "S":
				want = "close:" + detail + ";"
				aborted = true
			default:
				want = "throw:" + detail + ";"
			}
		case e == "h":
			if !(kind == "S" && aborted) {
				want = "half;"
			}
		case e == "c":
			want = "cancel;"
		case e == "d":
			want = map[string]string{"S": "complete;", "C": "request3;"}[kind]
		default:
			want = map[string]string{"S": "ready;", "C": "cstart;"}[kind]
			any = aborted // nothing is said about readiness after a rejection
		}
		if eff != want && !(any && eff == "") {
			return fmt.Sprintf("event %d (%s) had the effects [%s], expected [%s]", i, callShape(ev[i:i+1], verd), decodeEff(eff), decodeEff(want)), aborted
		}
	}
	return "", aborted
}

func decodeEff(s string) string {
	for _, p := range strings.FieldsFunc(s, func(r rune) bool { return r == '|' || r == ':' || r == ';' }) {
		if len(p) > 4 && len(p)%2 == 0 {
			if b, err := hex.DecodeString(p); err == nil {
				s = strings.Replace(s, p, string(b), 1)
			}
		}
	}
	return s
}

func init() {
	checks["C16"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "lookups: distinct by index kind, message and outcome; explicit index: one per asserted step; calls: distinct event shapes (valid, invalid and failing messages, half-close, cancel, complete, ready)"
		c.Assume = []string{"gRPC and protobuf-java are stand-ins; calls are driven as gRPC drives them, one event at a time per call", "interleavings of concurrent lookups are those the JVM produced, with all threads released together on a fresh index"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed + 16)
		g.Rich = c.Rich
		g.NoNil = true
		g.PerFile = 20
		g.At = time.Now().UnixNano() - fixedNow.S*1000000000 - 450*1000000000
		all := &Suite{}
		var cs []*Case
		for _, s := range []*Suite{msgSuite(g, "lmsg"), javaNameSuite("lname")} {
			all.Files = append(all.Files, s.Files...)
			for _, x := range s.cases(g, 1, 4) {
				if !hasNil(x.V) {
					cs = append(cs, x)
				}
			}
		}
		all, cs = javaFinish(g, all, cs)
		b, err := c.W.buildJava("java", all)
		if err != nil {
			return c.broken(err)
		}
		if err := c.lookupCheck(b, cs); err != nil {
			return err
		}
		if err := c.explicitCheck(b, cs); err != nil {
			return err
		}
		return c.grpcCheck(b, cs)
	}}
}
