package main

// The reference semantics: which violations a message value has.

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"
)

type CauseKind int

const (
	CNone CauseKind = iota
	CSome           // some non-nil non-PGV cause
	CNested
	CAnyway // may or may not have one
)

type Viol struct {
	Field  string
	Key    bool
	Reason string // expected text
	Prefix bool   // Reason is only a prefix
	Cause  CauseKind
	Nested *Expect
	Opt    bool // not settled: may or may not be reported
	Tag    string
	F      *Field
}

type Expect struct {
	M *Msg
	V []Viol
}

func (e *Expect) must() bool {
	for _, v := range e.V {
		if !v.Opt {
			return true
		}
	}
	return false
}
func (e *Expect) may() bool { return len(e.V) > 0 }

type Ctx struct {
	Now SN
	Go  bool // judging Go, where hand-written validators of other packages are called
}

func (c *Ctx) evalMsg(v *MVal) *Expect {
	if v == nil || v.Nil || v.M.Disabled || v.M.Ignored || v.M.NoPGV && !(c.Go && v.M.GoLegacy) {
		return &Expect{}
	}
	e := &Expect{M: v.M}
	for _, f := range v.M.Fields {
		if f.Oneof == nil {
			e.V = append(e.V, c.evalField(v, f)...)
		}
	}
	for _, o := range v.M.Oneofs {
		set := false
		for _, f := range v.M.Fields {
			if f.Oneof == o {
				if _, ok := v.F[f]; ok {
					set = true
					e.V = append(e.V, c.evalField(v, f)...)
				}
			}
		}
		if !set && o.Required {
			e.V = append(e.V, Viol{Field: goCamel(o.Name), Reason: "value is required", Tag: "oneof_required"})
		}
	}
	return e
}

func (c *Ctx) evalField(v *MVal, f *Field) (out []Viol) {
	r := f.R
	if r == nil {
		r = &Rules{}
	}
	add := func(tag, reason string) { out = append(out, Viol{Field: f.GoName, Reason: reason, Tag: tag}) }
	defer func() {
		for i := range out {
			out[i].F = f
		}
	}()
	switch f.Label {
	case Repeated:
		list, _ := v.F[f].([]any)
		rr := r.Rep
		if rr == nil {
			rr = &RepRules{}
		}
		if rr.IgnoreEmpty && len(list) == 0 {
			return
		}
		countViol(add, uint64(len(list)), rr.Min, rr.Max, "item(s)", "items")
		for i, it := range list {
			p := fmt.Sprintf("%s[%d]", f.GoName, i)
			if rr.Unique {
				for j := 0; j < i; j++ {
					if scalarEq(list[j], it) {
						out = append(out, Viol{Field: p, Reason: "repeated value must contain unique items", Tag: "unique"})
						break
					}
				}
			}
			out = append(out, c.evalValue(rr.Items, f.T, it, p, false)...)
		}
		return
	case Map:
		ents, _ := v.F[f].([]MapEnt)
		mr := r.Map
		if mr == nil {
			mr = &MapRules{}
		}
		if mr.IgnoreEmpty && len(ents) == 0 {
			return
		}
		mn := mr.Min
		countViol(add, uint64(len(ents)), mn, mr.Max, "pair(s)", "pairs")
		for _, en := range ents {
			p := fmt.Sprintf("%s[%v]", f.GoName, en.K)
			if mr.NoSparse {
				if mv, ok := en.V.(*MVal); ok && mv.Nil {
					out = append(out, Viol{Field: p, Reason: "value cannot be sparse, all pairs must be non-nil", Tag: "no_sparse"})
				}
			}
			if mr.Keys != nil {
				out = append(out, c.evalValue(mr.Keys, Type{K: f.KeyK}, en.K, p, true)...)
			}
			out = append(out, c.evalValue(mr.Values, f.T, en.V, p, false)...)
		}
		return
	}
	if f.T.K == KMsg {
		return c.evalValue(r, f.T, v.getSub(f), f.GoName, false)
	}
	return c.evalValue(r, f.T, v.get(f), f.GoName, false)
}

func countViol(add func(tag, reason string), n uint64, mn, mx *uint64, unit1, unit2 string) {
	lo := uint64(0)
	if mn != nil {
		lo = *mn
	}
	bad := n < lo || mx != nil && n > *mx
	if !bad {
		return
	}
	switch {
	case lo > 0 && mx != nil && *mx == lo:
		add("count", fmt.Sprintf("value must contain exactly %d %s", lo, unit1))
	case lo > 0 && mx != nil:
		add("count", fmt.Sprintf("value must contain between %d and %d %s, inclusive", lo, *mx, unit2))
	case lo > 0:
		add("count", fmt.Sprintf("value must contain at least %d %s", lo, unit1))
	default:
		add("count", fmt.Sprintf("value must contain no more than %d %s", *mx, unit1))
	}
}

func scalarEq(a, b any) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return a == b
}

func (c *Ctx) evalValue(r *Rules, t Type, x any, path string, key bool) (out []Viol) {
	if r == nil {
		r = &Rules{}
	}
	add := func(tag, reason string) { out = append(out, Viol{Field: path, Key: key, Reason: reason, Tag: tag}) }
	if t.K == KMsg {
		mv, _ := x.(*MVal)
		if mv != nil && mv.Nil {
			mv = nil
		}
		switch {
		case r.Any != nil:
			if r.Any.Required && mv == nil {
				add("required", "value is required")
			}
			if mv != nil {
				u := mv.get(mv.M.Fields[0]).(string)
				if len(r.Any.In) > 0 {
					if !inStrs(r.Any.In, u) {
						add("in", fmt.Sprint("type URL must be in list ", r.Any.In))
					}
				} else if inStrs(r.Any.NotIn, u) {
					add("not_in", fmt.Sprint("type URL must not be in list ", r.Any.NotIn))
				}
			}
			return
		case r.Dur != nil:
			if r.Dur.Required && mv == nil {
				add("required", "value is required")
			}
			if mv != nil {
				out = append(out, evalDur(r.Dur, mv, path, key)...)
			}
			return
		case r.Ts != nil:
			if r.Ts.Required && mv == nil {
				add("required", "value is required")
			}
			if mv != nil {
				out = append(out, c.evalTs(r.Ts, mv, path, key)...)
			}
			return
		case r.Typ != "" && isWrapper(t.Msg):
			if mv == nil {
				if r.Msg != nil && r.Msg.Required {
					add("required", "value is required and must not be nil.")
				}
				return
			}
			return c.evalScalar(r, t.Msg.Fields[0].T.K, mv.get(mv.M.Fields[0]), path, key, nil)
		}
		if r.Msg != nil && r.Msg.Required && mv == nil {
			add("required", "value is required")
		}
		if r.Msg != nil && r.Msg.Skip {
			return
		}
		if mv != nil {
			sub := c.evalMsg(mv)
			if sub.may() {
				out = append(out, Viol{Field: path, Key: key, Reason: "embedded message failed validation", Cause: CNested, Nested: sub, Tag: "embedded", Opt: !sub.must()})
			}
		}
		return
	}
	return c.evalScalar(r, t.K, x, path, key, t.Enum)
}

func (c *Ctx) evalScalar(r *Rules, k Kind, x any, path string, key bool, en *Enum) (out []Viol) {
	add := func(tag, reason string) { out = append(out, Viol{Field: path, Key: key, Reason: reason, Tag: tag}) }
	opt := func(v Viol) { v.Field, v.Key = path, key; out = append(out, v) }
	switch {
	case r.Num != nil:
		n := r.Num
		if n.IgnoreEmpty && isZeroNum(x) {
			return
		}
		if n.Const != nil && x != n.Const {
			add("const", fmt.Sprint("value must equal ", n.Const))
		}
		if n.Lt != nil || n.Lte != nil || n.Gt != nil || n.Gte != nil {
			nan := isNaN(x)
			cmp := func(b any) int { return numCmp(x, b) }
			bad, reason := rangeViol(cmp, numCmp, n.Lt, n.Lte, n.Gt, n.Gte, func(v any) string { return fmt.Sprint(v) })
			if nan {
				_, reason = rangeViol(cmp, numCmp, n.Lt, n.Lte, n.Gt, n.Gte, func(v any) string { return fmt.Sprint(v) })
				opt(Viol{Opt: true, Reason: reason, Prefix: true, Tag: "nan"})
			} else if bad {
				add("range", reason)
			}
		}
		if len(n.In) > 0 {
			if !inNums(n.In, x) {
				add("in", "value must be in list "+sprintNums(n.In))
			}
		} else if inNums(n.NotIn, x) {
			add("not_in", "value must not be in list "+sprintNums(n.NotIn))
		}
	case r.BoolS:
		if r.Bool != nil && x.(bool) != *r.Bool {
			add("const", fmt.Sprint("value must equal ", *r.Bool))
		}
	case r.Enum != nil:
		n := int32(x.(EnumNum))
		e := r.Enum
		if e.Const != nil && n != *e.Const {
			add("const", fmt.Sprint("value must equal ", *e.Const))
		}
		if len(e.In) > 0 {
			if !inI32(e.In, n) {
				add("in", fmt.Sprint("value must be in list ", e.In))
			}
		} else if inI32(e.NotIn, n) {
			add("not_in", fmt.Sprint("value must not be in list ", e.NotIn))
		}
		if e.DefinedOnly && !en.has(n) {
			add("defined_only", "value must be one of the defined enum values")
		}
	case r.Str != nil:
		var s string
		if r.Str.Bytes {
			s = string(x.([]byte))
		} else {
			s = x.(string)
		}
		evalStr(r.Str, s, add, opt)
	}
	return
}

// reMatch reads patterns as RE2 does; only pyDialect exchanges it.
var reMatch = func(pat, s string, bytes bool) bool { return regexp.MustCompile(pat).MatchString(s) }

func evalStr(r *StrRules, s string, add func(tag, reason string), opt func(Viol)) {
	if r.IgnoreEmpty && s == "" {
		return
	}
	q := func(p *string) string {
		if r.Bytes {
			var b strings.Builder
			b.WriteByte('"')
			for i := 0; i < len(*p); i++ {
				fmt.Fprintf(&b, "\\x%02X", (*p)[i])
			}
			b.WriteByte('"')
			return b.String()
		}
		return fmt.Sprintf("%q", *p)
	}
	show := func(x string) any {
		if r.Bytes {
			return []byte(x)
		}
		return x
	}
	showL := func(xs []string) any {
		if r.Bytes {
			var o [][]byte
			for _, x := range xs {
				o = append(o, []byte(x))
			}
			return o
		}
		return xs
	}
	if r.Const != nil && s != *r.Const {
		add("const", fmt.Sprint("value must equal ", show(*r.Const)))
	}
	if len(r.In) > 0 {
		if !inStrs(r.In, s) {
			add("in", fmt.Sprint("value must be in list ", showL(r.In)))
		}
	} else if inStrs(r.NotIn, s) {
		add("not_in", fmt.Sprint("value must not be in list ", showL(r.NotIn)))
	}
	length := func(n uint64, l, mn, mx *uint64, unit string) {
		bad := l != nil && n != *l || mn != nil && n < *mn || mx != nil && n > *mx
		if !bad {
			return
		}
		switch {
		case l != nil:
			add("len", fmt.Sprintf("value length must be %d %s", *l, unit))
		case mn != nil && mx != nil && *mn == *mx:
			add("len", fmt.Sprintf("value length must be %d %s", *mn, unit))
		case mn != nil && mx != nil:
			add("len", fmt.Sprintf("value length must be between %d and %d %s, inclusive", *mn, *mx, unit))
		case mn != nil:
			add("len", fmt.Sprintf("value length must be at least %d %s", *mn, unit))
		default:
			add("len", fmt.Sprintf("value length must be at most %d %s", *mx, unit))
		}
	}
	if r.Bytes {
		length(uint64(len(s)), r.Len, r.MinLen, r.MaxLen, "bytes")
	} else {
		length(uint64(utf8.RuneCountInString(s)), r.Len, r.MinLen, r.MaxLen, "runes")
		length(uint64(len(s)), r.LenBytes, r.MinBytes, r.MaxBytes, "bytes")
	}
	if r.Prefix != nil && !strings.HasPrefix(s, *r.Prefix) {
		add("prefix", "value does not have prefix "+q(r.Prefix))
	}
	if r.Suffix != nil && !strings.HasSuffix(s, *r.Suffix) {
		add("suffix", "value does not have suffix "+q(r.Suffix))
	}
	if r.Contains != nil && !strings.Contains(s, *r.Contains) {
		if r.Bytes {
			add("contains", "value does not contain "+q(r.Contains))
		} else {
			add("contains", "value does not contain substring "+q(r.Contains))
		}
	}
	if r.NotContains != nil && strings.Contains(s, *r.NotContains) {
		add("not_contains", "value contains substring "+q(r.NotContains))
	}
	if r.WK != "" {
		t := Good
		reason, cause, prefix := "", CNone, false
		switch r.WK {
		case "ip", "ipv4", "ipv6":
			if r.Bytes {
				t = fmtIPBytes([]byte(s), r.WK)
			} else {
				t = fmtIP(s, r.WK)
			}
			reason = "value must be a valid " + map[string]string{"ip": "IP", "ipv4": "IPv4", "ipv6": "IPv6"}[r.WK] + " address"
		case "email":
			t, reason, cause = fmtEmail(s), "value must be a valid email address", CSome
		case "hostname":
			t, reason, cause = fmtHostname(s), "value must be a valid hostname", CSome
		case "address":
			t, reason = fmtHostname(s), "value must be a valid hostname, or ip address"
			if t != Good {
				if u := fmtIP(s, "ip"); u > t {
					t = u
				}
			}
		case "uri":
			t, reason, cause, prefix = fmtURIRef(s, true), "value must be ", CAnyway, true
		case "uri_ref":
			t, reason, cause = fmtURIRef(s, false), "value must be a valid URI", CSome
		case "uuid":
			t, reason, cause = fmtUUID(s), "value must be a valid UUID", CSome
		}
		if t != Good {
			opt(Viol{Reason: reason, Prefix: prefix, Cause: cause, Tag: r.WK, Opt: t == Unknown})
		}
	}
	if r.Regex != "" {
		t := fmtHeader(s, r.Regex, r.Strict == nil || *r.Strict)
		if t != Good {
			opt(Viol{Reason: "value does not match regex pattern ", Prefix: true, Tag: r.Regex, Opt: t == Unknown})
		}
	}
	if r.Pattern != nil && !reMatch(*r.Pattern, s, r.Bytes) {
		add("pattern", "value does not match regex pattern "+fmt.Sprintf("%q", *r.Pattern))
	}
}

// ---- ranges ----

func rangeViol(cmp func(b any) int, cmpB func(a, b any) int, lt, lte, gt, gte any, show func(any) string) (bool, string) {
	up, lo := lt, gt
	upInc, loInc := false, false
	if lte != nil {
		up, upInc = lte, true
	}
	if gte != nil {
		lo, loInc = gte, true
	}
	upOK := func() bool { c := cmp(up); return c < 0 || upInc && c == 0 }
	loOK := func() bool { c := cmp(lo); return c > 0 || loInc && c == 0 }
	br := func(inc bool, a, b string) string {
		if inc {
			return a
		}
		return b
	}
	switch {
	case up != nil && lo != nil:
		if cmpB(up, lo) > 0 {
			return !(upOK() && loOK()), "value must be inside range " + br(loInc, "[", "(") + show(lo) + ", " + show(up) + br(upInc, "]", ")")
		}
		return !(upOK() || loOK()), "value must be outside range " + br(upInc, "(", "[") + show(up) + ", " + show(lo) + br(loInc, ")", "]")
	case up != nil:
		return !upOK(), "value must be less than " + br(upInc, "or equal to ", "") + show(up)
	case lo != nil:
		return !loOK(), "value must be greater than " + br(loInc, "or equal to ", "") + show(lo)
	}
	return false, ""
}

func isNaN(x any) bool {
	switch v := x.(type) {
	case float32:
		return v != v
	case float64:
		return v != v
	}
	return false
}

func isZeroNum(x any) bool { return numCmp(x, zeroLike(x)) == 0 && !isNaN(x) }

func zeroLike(x any) any {
	switch x.(type) {
	case float32:
		return float32(0)
	case float64:
		return float64(0)
	case int32:
		return int32(0)
	case int64:
		return int64(0)
	case uint32:
		return uint32(0)
	}
	return uint64(0)
}

func toBig(x any) *big.Rat {
	r := new(big.Rat)
	switch v := x.(type) {
	case int32:
		r.SetInt64(int64(v))
	case int64:
		r.SetInt64(v)
	case uint32:
		r.SetUint64(uint64(v))
	case uint64:
		r.SetInt(new(big.Int).SetUint64(v))
	case float32:
		r.SetFloat64(float64(v))
	case float64:
		r.SetFloat64(v)
	}
	return r
}

func asF(x any) (float64, bool) {
	switch v := x.(type) {
	case float32:
		return float64(v), true
	case float64:
		return v, true
	}
	return 0, false
}

func numCmp(a, b any) int {
	if x, ok := asF(a); ok {
		y, _ := asF(b)
		switch {
		case math.IsInf(x, 0) || math.IsInf(y, 0) || x != x || y != y:
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	return toBig(a).Cmp(toBig(b))
}

func inNums(l []any, x any) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
func inStrs(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
func inI32(l []int32, x int32) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
func sprintNums(l []any) string { return fmt.Sprint(l) }

// ---- durations and timestamps ----

func snOf(v *MVal) SN { return SN{v.get(v.M.Fields[0]).(int64), v.get(v.M.Fields[1]).(int32)} }

func snNorm(s SN) *big.Int {
	b := big.NewInt(s.S)
	b.Mul(b, big.NewInt(1_000_000_000))
	return b.Add(b, big.NewInt(int64(s.N)))
}
func snCmp(a, b SN) int { return snNorm(a).Cmp(snNorm(b)) }

func durValid(s SN) bool {
	return s.S >= -315576000000 && s.S <= 315576000000 && s.N > -1000000000 && s.N < 1000000000 && !(s.S > 0 && s.N < 0) && !(s.S < 0 && s.N > 0)
}
func tsValid(s SN) bool {
	return s.S >= -62135596800 && s.S <= 253402300799 && s.N >= 0 && s.N < 1000000000
}

func durShow(s SN) string {
	n := snNorm(s)
	if !n.IsInt64() {
		if n.Sign() > 0 {
			return time.Duration(math.MaxInt64).String()
		}
		return time.Duration(math.MinInt64).String()
	}
	return time.Duration(n.Int64()).String()
}
func tsShow(s SN) string { return time.Unix(s.S, int64(s.N)).UTC().String() }

func snIface(p *SN) any {
	if p == nil {
		return nil
	}
	return *p
}

func evalDur(r *DurRules, mv *MVal, path string, key bool) (out []Viol) {
	if r.Const == nil && r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil && len(r.In) == 0 && len(r.NotIn) == 0 {
		return
	}
	d := snOf(mv)
	if !durValid(d) {
		return []Viol{{Field: path, Key: key, Reason: "value is not a valid duration", Cause: CSome, Tag: "invalid_duration"}}
	}
	add := func(tag, reason string, pre bool) {
		out = append(out, Viol{Field: path, Key: key, Reason: reason, Prefix: pre, Tag: tag})
	}
	if r.Const != nil && snCmp(d, *r.Const) != 0 {
		add("const", "value must equal "+durShow(*r.Const), false)
	}
	cmp := func(b any) int { return snCmp(d, b.(SN)) }
	if bad, reason := rangeViol(cmp, func(a, b any) int { return snCmp(a.(SN), b.(SN)) }, snIface(r.Lt), snIface(r.Lte), snIface(r.Gt), snIface(r.Gte), func(v any) string { return durShow(v.(SN)) }); bad {
		add("range", reason, false)
	}
	has := func(l []SN) bool {
		for _, x := range l {
			if snCmp(x, d) == 0 {
				return true
			}
		}
		return false
	}
	if len(r.In) > 0 {
		if !has(r.In) {
			add("in", "value must be in list [", true)
		}
	} else if has(r.NotIn) {
		add("not_in", "value must not be in list [", true)
	}
	return
}

func (c *Ctx) evalTs(r *TsRules, mv *MVal, path string, key bool) (out []Viol) {
	if r.Const == nil && r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil && !r.LtNow && !r.GtNow && r.Within == nil {
		return
	}
	d := snOf(mv)
	if !tsValid(d) {
		return []Viol{{Field: path, Key: key, Reason: "value is not a valid timestamp", Cause: CSome, Tag: "invalid_timestamp"}}
	}
	add := func(tag, reason string) {
		out = append(out, Viol{Field: path, Key: key, Reason: reason, Tag: tag})
	}
	if r.Const != nil && snCmp(d, *r.Const) != 0 {
		add("const", "value must equal "+tsShow(*r.Const))
	}
	cmp := func(b any) int { return snCmp(d, b.(SN)) }
	if bad, reason := rangeViol(cmp, func(a, b any) int { return snCmp(a.(SN), b.(SN)) }, snIface(r.Lt), snIface(r.Lte), snIface(r.Gt), snIface(r.Gte), func(v any) string { return tsShow(v.(SN)) }); bad {
		add("range", reason)
	}
	if r.LtNow || r.GtNow || r.Within != nil {
		diff := new(big.Int).Sub(snNorm(d), snNorm(c.Now)) // value - now
		var w *big.Int
		if r.Within != nil {
			w = snNorm(*r.Within)
		}
		switch {
		case r.LtNow:
			bad := diff.Sign() >= 0
			reason := "value must be less than now"
			if w != nil {
				reason += " within " + durShow(*r.Within)
				bad = bad || new(big.Int).Neg(w).Cmp(diff) > 0
			}
			if bad {
				add("lt_now", reason)
			}
		case r.GtNow:
			bad := diff.Sign() <= 0
			reason := "value must be greater than now"
			if w != nil {
				reason += " within " + durShow(*r.Within)
				bad = bad || diff.Cmp(w) > 0
			}
			if bad {
				add("gt_now", reason)
			}
		default:
			k := new(big.Int).Abs(diff).Cmp(w)
			v := Viol{Field: path, Key: key, Reason: "value must be within " + durShow(*r.Within) + " of now", Tag: "within"}
			if k == 0 { // inclusive or exclusive is not documented
				v.Opt = true
			}
			if k >= 0 {
				out = append(out, v)
			}
		}
	}
	return
}
