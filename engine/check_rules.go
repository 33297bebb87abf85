package main

// C11: which rule sets the plugin must reject and which it must accept.

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"unicode/utf8"
)

type RV int

const (
	RGood RV = iota
	RUnknown
	RBad
)

func (v RV) String() string { return [...]string{"accept", "unspecified", "reject"}[v] }

func worse(a, b RV) RV { return max(a, b) }

// ruleTypeFits says whether rules of the named type apply to a value of type t.
func ruleTypeFits(typ string, t Type) bool {
	if t.K == KMsg {
		switch typ {
		case "any":
			return t.Msg == wAny
		case "duration":
			return t.Msg == wDuration
		case "timestamp":
			return t.Msg == wTimestamp
		}
		for k, w := range wWrap {
			if w == t.Msg {
				return typ == kindName[k]
			}
		}
		return false
	}
	if t.K == KEnum {
		return typ == "enum"
	}
	return typ == kindName[t.K]
}

// fieldVerdict judges the rules of a whole field.
func fieldVerdict(f *Field) (RV, string) {
	if f.R == nil {
		return RGood, ""
	}
	switch f.Label {
	case Repeated, Map:
		if f.R.Msg != nil {
			return RBad, "message rules on a repeated or map field"
		}
		if f.R.Typ == "" {
			return RGood, ""
		}
		if f.Label == Repeated {
			if f.R.Typ != "repeated" {
				return RBad, f.R.Typ + " rules on a repeated field"
			}
			r := f.R.Rep
			if r == nil {
				return RGood, ""
			}
			if r.Min != nil && r.Max != nil && *r.Min > *r.Max {
				return RBad, "min_items above max_items"
			}
			if r.Unique && f.T.K == KMsg {
				return RBad, "unique on messages"
			}
			return elemVerdict(f.T, r.Items)
		}
		if f.R.Typ != "map" {
			return RBad, f.R.Typ + " rules on a map field"
		}
		r := f.R.Map
		if r == nil {
			return RGood, ""
		}
		if r.Min != nil && r.Max != nil && *r.Min > *r.Max {
			return RBad, "min_pairs above max_pairs"
		}
		if r.NoSparse && f.T.K != KMsg {
			return RBad, "no_sparse on scalars"
		}
		a, aw := elemVerdict(Type{K: f.KeyK}, r.Keys)
		b, bw := elemVerdict(f.T, r.Values)
		if a >= b {
			return a, aw
		}
		return b, bw
	}
	return elemVerdict(f.T, f.R)
}

// elemVerdict judges rules for one value: a singular field, item, key or value.
func elemVerdict(t Type, r *Rules) (RV, string) {
	if r == nil {
		return RGood, ""
	}
	if r.Msg != nil {
		if t.K != KMsg {
			return RBad, "message rules on a scalar"
		}
		if t.Msg == wAny || t.Msg == wDuration || t.Msg == wTimestamp {
			return RBad, "message rules on " + t.Msg.Full
		}
		if r.Msg.Skip && r.Typ != "" {
			return RBad, "skip with type rules"
		}
	}
	if r.Typ == "" {
		return RGood, ""
	}
	if !ruleTypeFits(r.Typ, t) {
		return RBad, r.Typ + " rules on a " + t.protoName()
	}
	switch {
	case r.Num != nil:
		return numVerdict(r.Num)
	case r.Str != nil:
		return strVerdict(r.Str)
	case r.Enum != nil:
		e := r.Enum
		if len(e.In) > 0 && len(e.NotIn) > 0 {
			return RBad, "in with not_in"
		}
		if e.DefinedOnly {
			for _, v := range e.In {
				if !t.Enum.has(v) {
					return RBad, "in outside defined_only"
				}
			}
		}
		cand := append([]int32{}, e.In...)
		if e.Const != nil {
			cand = []int32{*e.Const}
		}
		if len(cand) == 0 {
			for _, v := range t.Enum.Vals {
				cand = append(cand, v.N)
			}
		}
		for _, v := range cand {
			if (len(e.In) == 0 || inI32(e.In, v)) && !inI32(e.NotIn, v) && (!e.DefinedOnly || t.Enum.has(v)) {
				return RGood, ""
			}
		}
		return RUnknown, "unsatisfiable enum rules"
	case r.Any != nil:
		if len(r.Any.In) > 0 && len(r.Any.NotIn) > 0 {
			return RBad, "in with not_in"
		}
	case r.Dur != nil:
		return durVerdict(r.Dur)
	case r.Ts != nil:
		return tsVerdict(r.Ts)
	}
	return RGood, ""
}

func boundsVerdict(lt, lte, gt, gte any, cmp func(a, b any) int) (RV, string) {
	if lt != nil && lte != nil {
		return RBad, "lt with lte"
	}
	if gt != nil && gte != nil {
		return RBad, "gt with gte"
	}
	hi, lo := lt, gt
	if hi == nil {
		hi = lte
	}
	if lo == nil {
		lo = gte
	}
	if hi != nil && lo != nil && cmp(hi, lo) == 0 {
		return RBad, "equal bounds"
	}
	return RGood, ""
}

func numVerdict(n *NumRules) (RV, string) {
	rng := n.Lt != nil || n.Lte != nil || n.Gt != nil || n.Gte != nil
	if len(n.In) > 0 && len(n.NotIn) > 0 {
		return RBad, "in with not_in"
	}
	if n.Const != nil && (rng || len(n.In) > 0 || len(n.NotIn) > 0) {
		return RBad, "const with other rules"
	}
	if len(n.In) > 0 && rng {
		return RBad, "in with a range"
	}
	for _, x := range []any{n.Const, n.Lt, n.Lte, n.Gt, n.Gte} {
		if x != nil && isNaN(x) {
			return RUnknown, "NaN"
		}
	}
	if v, w := boundsVerdict(n.Lt, n.Lte, n.Gt, n.Gte, numCmp); v != RGood {
		return v, w
	}
	return RGood, ""
}

func durVerdict(d *DurRules) (RV, string) {
	rng := d.Lt != nil || d.Lte != nil || d.Gt != nil || d.Gte != nil
	all := append(append([]SN{}, d.In...), d.NotIn...)
	for _, p := range []*SN{d.Const, d.Lt, d.Lte, d.Gt, d.Gte} {
		if p != nil {
			all = append(all, *p)
		}
	}
	for _, s := range all {
		if !durValid(s) {
			return RBad, "invalid duration constant"
		}
	}
	if len(d.In) > 0 && len(d.NotIn) > 0 {
		return RBad, "in with not_in"
	}
	if d.Const != nil && (rng || len(d.In) > 0 || len(d.NotIn) > 0) {
		return RBad, "const with other rules"
	}
	if len(d.In) > 0 && rng {
		return RBad, "in with a range"
	}
	return boundsVerdict(snIface(d.Lt), snIface(d.Lte), snIface(d.Gt), snIface(d.Gte), func(a, b any) int { return snCmp(a.(SN), b.(SN)) })
}

func tsVerdict(d *TsRules) (RV, string) {
	rng := d.Lt != nil || d.Lte != nil || d.Gt != nil || d.Gte != nil
	for _, p := range []*SN{d.Const, d.Lt, d.Lte, d.Gt, d.Gte} {
		if p != nil && !tsValid(*p) {
			return RBad, "invalid timestamp constant"
		}
	}
	if d.Within != nil && !durValid(*d.Within) {
		return RBad, "invalid within duration"
	}
	if d.Const != nil && rng {
		return RBad, "const with other rules"
	}
	if d.LtNow && d.GtNow {
		return RBad, "both now rules"
	}
	if (d.LtNow || d.GtNow) && rng {
		return RBad, "now rules with absolute bounds"
	}
	if d.Within != nil && rng {
		return RBad, "within with absolute bounds"
	}
	if d.Within != nil && snNorm(*d.Within).Sign() <= 0 {
		return RBad, "within is not positive"
	}
	if v, w := boundsVerdict(snIface(d.Lt), snIface(d.Lte), snIface(d.Gt), snIface(d.Gte), func(a, b any) int { return snCmp(a.(SN), b.(SN)) }); v != RGood {
		return v, w
	}
	if d.Const != nil && (d.LtNow || d.GtNow || d.Within != nil) {
		return RUnknown, "const with now rules"
	}
	return RGood, ""
}

var strWitness = []string{"", "a", "abc", "abcabc", "ab", "bc", "xyz", "aé", "a.b", "abcd", "2001:db8::1", "1.2.3.4", "a@b.com", "http://a/b", "\x00\x01", "abcabcabcabc", "6ba7b810-9dad-11d1-80b4-00c04fd430c8"}

func strVerdict(s *StrRules) (RV, string) {
	u := func(p *uint64) uint64 { return *p }
	lens := func(l, mn, mx *uint64, n string) (RV, string) {
		if l != nil && (mn != nil || mx != nil) {
			return RBad, "len" + n + " with min or max"
		}
		if mn != nil && mx != nil && u(mn) > u(mx) {
			return RBad, "min" + n + " above max" + n
		}
		return RGood, ""
	}
	if v, w := lens(s.Len, s.MinLen, s.MaxLen, "_len"); v != RGood {
		return v, w
	}
	if v, w := lens(s.LenBytes, s.MinBytes, s.MaxBytes, "_bytes"); v != RGood {
		return v, w
	}
	if len(s.In) > 0 && len(s.NotIn) > 0 {
		return RBad, "in with not_in"
	}
	regex := s.Regex != "" && s.Regex != "UNKNOWN"
	if regex && s.Pattern != nil {
		return RBad, "pattern with well_known_regex"
	}
	if (s.Pattern != nil || regex) && len(s.In) > 0 {
		return RBad, "pattern with in"
	}
	if s.Pattern != nil {
		if _, err := regexp.Compile(*s.Pattern); err != nil {
			return RBad, "invalid pattern"
		}
	}
	for _, p := range []struct {
		n string
		s *string
	}{{"prefix", s.Prefix}, {"suffix", s.Suffix}, {"contains", s.Contains}} {
		if p.s == nil {
			continue
		}
		n := uint64(utf8.RuneCountInString(*p.s))
		if s.Bytes {
			n = uint64(len(*p.s))
		}
		if s.MaxLen != nil && n > *s.MaxLen {
			return RBad, p.n + " longer than max_len"
		}
		if s.MaxBytes != nil && uint64(len(*p.s)) > *s.MaxBytes {
			return RBad, p.n + " longer than max_bytes"
		}
	}
	if s.MaxLen != nil && s.MaxBytes != nil && *s.MaxLen > *s.MaxBytes {
		return RBad, "max_len above max_bytes"
	}
	cand := append([]string{}, strWitness...)
	if s.Const != nil {
		cand = append(cand, *s.Const)
	}
	cand = append(cand, s.In...)
	cand = append(cand, deref(s.Prefix)+deref(s.Contains)+deref(s.Suffix))
	for _, x := range cand {
		bad := false
		evalStr(s, x, func(tag, reason string) { bad = true }, func(Viol) {})
		if !bad {
			return RGood, ""
		}
	}
	return RUnknown, "no satisfying value known"
}

// ---- case generation ----

type ruleCase struct {
	pos, label string
	f          *Field
	m          *Msg
	file       *File
	want       RV
	why        string
	params     string
	targets    []string
	name       bool // the error must name message and field
}

type ruleGen struct {
	g    *Gen
	dir  string
	out  []*ruleCase
	n    int
	en   func(f *File) *Enum
	keep map[string]int
}

func (g *Gen) numRuleSets(k Kind, triples int) (out []*NumRules) {
	a, b := numFrom(k, 3), numFrom(k, 7)
	if g.Intn(2) == 0 {
		lo, hi := numMinMax(k)
		a, b = lo, hi
		if k == KFloat || k == KDouble {
			a, b = numFrom(k, -2.5), numFrom(k, 0)
		}
	}
	vals := []any{nil, a, b}
	mk := func(d []int) *NumRules {
		n := &NumRules{K: k, Const: vals[d[0]], Lt: vals[d[1]], Lte: vals[d[2]], Gt: vals[d[3]], Gte: vals[d[4]]}
		l := [][]any{nil, {a, b}, {b}}
		n.In, n.NotIn = l[d[5]], l[d[6]]
		n.IgnoreEmpty = d[7] == 1
		return n
	}
	base := make([]int, 8)
	out = append(out, mk(base))
	for i := 0; i < 8; i++ {
		for x := 1; x <= 2; x++ {
			if i == 7 && x == 2 {
				continue
			}
			d := append([]int{}, base...)
			d[i] = x
			out = append(out, mk(d))
			for j := i + 1; j < 8; j++ {
				for y := 1; y <= 2; y++ {
					if j == 7 && y == 2 {
						continue
					}
					e := append([]int{}, d...)
					e[j] = y
					out = append(out, mk(e))
				}
			}
		}
	}
	for i := 0; i < triples; i++ {
		d := make([]int, 8)
		for n := 3 + g.Intn(3); n > 0; n-- {
			d[g.Intn(8)] = 1 + g.Intn(2)
		}
		d[7] %= 2
		out = append(out, mk(d))
	}
	return
}

func (g *Gen) strRuleSets(by bool, triples int) (out []*StrRules) {
	type at struct{ f func(*StrRules) }
	var groups [][]func(*StrRules)
	add := func(fs ...func(*StrRules)) { groups = append(groups, fs) }
	S := func(x string) *string { return &x }
	add(func(s *StrRules) { s.Const = S("abc") }, func(s *StrRules) { s.Const = S("") })
	add(func(s *StrRules) { s.Len = u64(3) }, func(s *StrRules) { s.Len = u64(0) })
	add(func(s *StrRules) { s.MinLen = u64(2) }, func(s *StrRules) { s.MinLen = u64(5) }, func(s *StrRules) { s.MinLen = u64(4) })
	add(func(s *StrRules) { s.MaxLen = u64(4) }, func(s *StrRules) { s.MaxLen = u64(1) }, func(s *StrRules) { s.MaxLen = u64(0) }, func(s *StrRules) { s.MaxLen = u64(9) })
	if !by {
		add(func(s *StrRules) { s.LenBytes = u64(3) })
		add(func(s *StrRules) { s.MinBytes = u64(2) }, func(s *StrRules) { s.MinBytes = u64(6) }, func(s *StrRules) { s.MinBytes = u64(5) })
		add(func(s *StrRules) { s.MaxBytes = u64(5) }, func(s *StrRules) { s.MaxBytes = u64(2) }, func(s *StrRules) { s.MaxBytes = u64(3) }, func(s *StrRules) { s.MaxBytes = u64(4) })
		add(func(s *StrRules) { s.NotContains = S("z") })
		add(func(s *StrRules) { s.Regex = "HTTP_HEADER_NAME" }, func(s *StrRules) { s.Regex = "HTTP_HEADER_VALUE" }, func(s *StrRules) { s.Regex = "UNKNOWN" })
		add(func(s *StrRules) { s.Strict = ptr(false) }, func(s *StrRules) { s.Strict = ptr(true) })
	}
	add(func(s *StrRules) { s.Pattern = S("^a") }, func(s *StrRules) { s.Pattern = S("") }, func(s *StrRules) { s.Pattern = S("(unclosed") }, func(s *StrRules) { s.Pattern = S("a{2,1}") }, func(s *StrRules) { s.Pattern = S("(?=look)") }, func(s *StrRules) { s.Pattern = S("[z-a]") }, func(s *StrRules) { s.Pattern = S("\\") })
	add(func(s *StrRules) { s.Prefix = S("a") }, func(s *StrRules) { s.Prefix = S("abcé") }, func(s *StrRules) { s.Prefix = S("éé") })
	add(func(s *StrRules) { s.Suffix = S("c") }, func(s *StrRules) { s.Suffix = S("éabc") }, func(s *StrRules) { s.Suffix = S("éé") })
	add(func(s *StrRules) { s.Contains = S("b") }, func(s *StrRules) { s.Contains = S("aébc") }, func(s *StrRules) { s.Contains = S("éé") })
	add(func(s *StrRules) { s.In = []string{"abc", "xyz"} }, func(s *StrRules) { s.In = []string{""} })
	add(func(s *StrRules) { s.NotIn = []string{"q"} }, func(s *StrRules) { s.NotIn = []string{"abc", "q"} })
	wk := []string{"ip", "ipv4", "ipv6"}
	if !by {
		wk = []string{"email", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "address", "uuid"}
	}
	var fs []func(*StrRules)
	for _, w := range wk {
		fs = append(fs, func(s *StrRules) { s.WK = w; s.Regex = "" })
	}
	add(fs...)
	add(func(s *StrRules) { s.IgnoreEmpty = true })
	mk := func(fs ...func(*StrRules)) {
		s := &StrRules{Bytes: by}
		for _, f := range fs {
			f(s)
		}
		if s.WK != "" {
			s.Regex = "" // one oneof in validate.proto
		}
		out = append(out, s)
	}
	mk()
	for i, gi := range groups {
		for _, a := range gi {
			mk(a)
			for _, gj := range groups[i+1:] {
				for _, b := range gj {
					mk(a, b)
				}
			}
		}
	}
	for i := 0; i < triples; i++ {
		var fs []func(*StrRules)
		for n := 3 + g.Intn(3); n > 0; n-- {
			gr := groups[g.Intn(len(groups))]
			fs = append(fs, gr[g.Intn(len(gr))])
		}
		mk(fs...)
	}
	return
}

func (g *Gen) durRuleSets(triples int) (out []*DurRules) {
	vals := []*SN{nil, {3, 500}, {7, 0}, {-2, -5}, {1, -1}, {400000000000, 0}, {0, 1000000000}, {3, 499}}
	mk := func(d []int) {
		r := &DurRules{Const: vals[d[0]], Lt: vals[d[1]], Lte: vals[d[2]], Gt: vals[d[3]], Gte: vals[d[4]], Required: d[7] == 1}
		l := func(i int) []SN {
			if i == 0 {
				return nil
			}
			return []SN{*vals[1], *vals[i]}[:1+i/2%2+0]
		}
		ll := func(i int) []SN {
			x := l(i)
			if i >= 4 && i <= 6 {
				x = []SN{*vals[1], *vals[i]}
			}
			return x
		}
		r.In, r.NotIn = ll(d[5]), ll(d[6])
		out = append(out, r)
	}
	b := make([]int, 8)
	mk(b)
	for i := 0; i < 8; i++ {
		for x := 1; x < len(vals); x++ {
			d := append([]int{}, b...)
			d[i] = x
			if i == 7 {
				d[i] = 1
			}
			mk(d)
			for j := i + 1; j < 8; j++ {
				for _, y := range []int{1, 2, x, 7} {
					e := append([]int{}, d...)
					e[j] = y
					if j == 7 {
						e[j] = 1
					}
					mk(e)
				}
			}
		}
	}
	for i := 0; i < triples; i++ {
		d := make([]int, 8)
		for n := 3 + g.Intn(2); n > 0; n-- {
			d[g.Intn(8)] = 1 + g.Intn(3)
		}
		if d[7] > 1 {
			d[7] = 1
		}
		mk(d)
	}
	return
}

func (g *Gen) tsRuleSets(triples int) (out []*TsRules) {
	vals := []*SN{nil, {3, 500}, {1700000000, 0}, {-5, 999999999}, {1, -1}, {253402300800, 0}, {-62135596801, 0}, {0, 1000000000}, {3, 499}}
	with := []*SN{nil, {60, 0}, {0, 1}, {0, 0}, {-1, 0}, {0, -1}, {1, -1}, {400000000000, 0}}
	mk := func(d []int) {
		out = append(out, &TsRules{Const: vals[d[0]], Lt: vals[d[1]], Lte: vals[d[2]], Gt: vals[d[3]], Gte: vals[d[4]], LtNow: d[5] > 0, GtNow: d[6] > 0, Within: with[d[7]], Required: d[8] > 0})
	}
	lim := []int{len(vals), len(vals), len(vals), len(vals), len(vals), 2, 2, len(with), 2}
	b := make([]int, 9)
	mk(b)
	for i := range lim {
		for x := 1; x < lim[i]; x++ {
			d := append([]int{}, b...)
			d[i] = x
			mk(d)
			for j := i + 1; j < len(lim); j++ {
				for _, y := range []int{1, 2, x} {
					if y < lim[j] {
						e := append([]int{}, d...)
						e[j] = y
						mk(e)
					}
				}
			}
		}
	}
	for i := 0; i < triples; i++ {
		d := make([]int, 9)
		for n := 3 + g.Intn(2); n > 0; n-- {
			k := g.Intn(9)
			d[k] = 1 + g.Intn(min(3, lim[k]-1))
		}
		mk(d)
	}
	return
}

var legalKey = map[Kind]bool{KInt32: true, KInt64: true, KUint32: true, KUint64: true, KSint32: true, KSint64: true, KFixed32: true, KFixed64: true, KSfixed32: true, KSfixed64: true, KBool: true, KString: true}

// twin gives a message of the target's name a field of the target's name.
func (rg *ruleGen) twin(tw *Msg, name string, lab Label, ft Type) {
	switch rg.g.Intn(4) {
	case 0:
		tw.field(name, lab, ft, nil)
	case 1:
		tw.field(name, lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(1)}))
	case 2:
		tw.Disabled = true
		tw.field(name, lab, Type{K: KString}, strR(&StrRules{MinLen: u64(7), MaxLen: u64(3)}))
	case 3:
		tw.field("other", lab, Type{K: KBool}, nil)
	}
}

// homeType is the plainest type that rules are meant for.
func homeType(f *File, r *Rules) (Type, bool) {
	if r == nil || r.Msg != nil {
		return Type{}, false
	}
	switch r.Typ {
	case "string":
		return Type{K: KString}, true
	case "bytes":
		return Type{K: KBytes}, true
	case "bool":
		return Type{K: KBool}, true
	case "duration":
		return Type{K: KMsg, Msg: wDuration}, true
	case "timestamp":
		return Type{K: KMsg, Msg: wTimestamp}, true
	case "any":
		return Type{K: KMsg, Msg: wAny}, true
	}
	if r.Num != nil {
		return Type{K: r.Num.K}, true
	}
	return Type{}, false
}

// place puts rules r for a value of type t at one of the field positions.
// It returns nil when the position does not exist for t.
func (rg *ruleGen) place(pos string, t func(f *File) Type, r *Rules) *ruleCase {
	syn := "proto3"
	if pos == "proto2opt" || pos == "proto2req" {
		syn = "proto2"
	}
	rg.n++
	f := &File{Path: fmt.Sprintf("c11/q%d.proto", rg.n), Pkg: "c11", Syntax: syn, GoPkg: "vgen/c11;c11"}
	f.Pkg = fmt.Sprintf("c11.p%d", rg.n)
	lab := Single
	if syn == "proto2" {
		lab = Optional
	}
	name := fmt.Sprintf("fq_%dz", rg.n)
	// A message of the same simple name, or the message around it, comes
	// first: what is found out about one says nothing about the other.
	msgName, tmName := fmt.Sprintf("Mq%dz", rg.n), fmt.Sprintf("Nq%dz", rg.n)
	ft := t(f)
	var m *Msg
	if rg.g.Intn(3) > 0 {
		m = f.msg(msgName)
	} else {
		tw := f.msg(msgName)
		rg.twin(tw, name, lab, ft)
		m = f.msg(fmt.Sprintf("Outer%dz", rg.n)).nested(msgName)
	}
	if pos == "nested" && rg.g.Intn(2) == 0 {
		rg.twin(f.msg(tmName), name, lab, ft)
	}
	if rg.n%6 == 4 { // options that are off are written out: they are no rules
		m.Explicit = true
		for i := len(f.Msgs) - 1; i >= 0; i-- {
			f.Msgs[i].Explicit = true
		}
	}
	m.field("good_before", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(1)}))
	for i := rg.g.Intn(4); i > 1; i-- { // consistent neighbours
		m.field(fmt.Sprintf("near_%d", i), lab, Type{K: KDouble}, numR(&NumRules{K: KDouble, Lt: float64(i)}))
		m.rep(fmt.Sprintf("near_rep_%d", i), Type{K: KString}, repR(&RepRules{Min: u64(1), Items: strR(&StrRules{MinLen: u64(i)})}))
	}
	if rg.g.Intn(4) == 0 { // an unchecked sibling
		d := f.msg(fmt.Sprintf("Unchecked%dz", rg.n))
		d.Disabled = true
		d.field("odd", lab, Type{K: KString}, strR(&StrRules{MinLen: u64(7), MaxLen: u64(3)}))
	}
	// consistent options of the container around items, keys and values
	mn, mx := []*uint64{nil, nil, u64(0), u64(1), u64(2)}[rg.g.Intn(5)], (*uint64)(nil)
	if mn != nil && rg.g.Intn(2) == 0 {
		mx = u64(int(*mn) + rg.g.Intn(3))
	}
	ie, un := rg.g.Intn(4) == 0, rg.g.Intn(3) == 0
	if h, ok := homeType(f, r); ok && rg.g.Intn(3) == 0 && (h.K != ft.K || h.Msg != ft.Msg) {
		// the same rules on the type they are for
		l := lab
		if h.K == KMsg && h.Msg != nil && lab == Single {
			l = Single
		}
		x := m.field("home", l, h, r)
		if v, _ := fieldVerdict(x); v != RGood {
			m.Fields = m.Fields[:len(m.Fields)-1]
		}
	}
	var fl *Field
	tm := m
	switch pos {
	case "single":
		fl = m.field(name, Single, ft, r)
	case "oneof":
		more := rg.g.Intn(6)
		if more > 3 {
			o := m.oneof("before", rg.g.Intn(2) == 0)
			m.f("earlier", KString, strR(&StrRules{MinLen: u64(3)})).in(o)
			m.f("earlier_2", KBool, nil).in(o)
		}
		o := m.oneof("oo", rg.g.Intn(2) == 0)
		if more != 1 {
			m.f("first", KString, strR(&StrRules{MinLen: u64(2)})).in(o)
		}
		fl = m.field(name, Single, ft, r).in(o)
		if more%2 == 1 {
			m.f("last", KInt64, numR(&NumRules{K: KInt64, Lt: int64(2)})).in(o)
		}
		if more == 3 || more == 4 {
			o := m.oneof("after", rg.g.Intn(2) == 0)
			m.f("later", KBytes, nil).in(o)
		}
	case "proto2opt":
		fl = m.field(name, Optional, ft, r)
	case "proto2req":
		fl = m.field(name, Required, ft, r)
	case "nested":
		mid := m.nested("Mid")
		mid.Disabled = rg.g.Intn(4) == 0
		m.Disabled = rg.g.Intn(4) == 0
		tm = mid.nested(tmName)
		fl = tm.field(name, Single, ft, r)
	case "wrapper":
		w := wWrap[ft.K]
		if w == nil {
			return nil
		}
		fl = m.fm(name, w, r)
	case "items":
		fl = m.rep(name, ft, repR(&RepRules{Items: r, Min: mn, Max: mx, IgnoreEmpty: ie, Unique: un && ft.K != KMsg}))
	case "values":
		mr := &MapRules{Values: r, Min: mn, Max: mx, IgnoreEmpty: ie, NoSparse: un && ft.K == KMsg}
		if rg.g.Intn(3) == 0 {
			mr.Keys = strR(&StrRules{MaxLen: u64(8)})
		}
		fl = m.mp(name, KString, ft, mapR(mr))
	case "keys":
		if !legalKey[ft.K] || ft.Msg != nil {
			return nil
		}
		fl = m.mp(name, ft.K, Type{K: KString}, nil)
		mr := &MapRules{Keys: r, Min: mn, Max: mx, IgnoreEmpty: ie}
		if rg.g.Intn(3) == 0 {
			mr.Values = strR(&StrRules{MaxLen: u64(8)})
		}
		fl.R = mapR(mr)
	case "disabled":
		m.Disabled = true
		fl = m.field(name, Single, ft, r)
	case "repeated": // the rules directly on a repeated field
		fl = m.rep(name, ft, r)
	case "map":
		fl = m.mp(name, KInt64, ft, r)
	}
	m.field("good_after", lab, Type{K: KString}, strR(&StrRules{MaxLen: u64(9)}))
	c := &ruleCase{pos: pos, f: fl, m: tm, file: f, params: "lang=go,paths=source_relative", targets: []string{f.Path}, name: true}
	c.want, c.why = fieldVerdict(fl)
	if pos == "disabled" {
		if c.want == RBad {
			c.label = "bad rules in a disabled message"
		}
		c.want = RGood
	}
	// wrappers inside containers: C13's concern (the generator crashes on them)
	if (fl.Label == Repeated || fl.Label == Map) && fl.T.K == KMsg && isWrapper(fl.T.Msg) && c.want == RGood {
		c.want, c.why = RUnknown, "wrapper rules inside a container"
	}
	if ft.K == KMsg && pos == "proto2req" && ft.Msg.File == f && c.want == RGood {
		// fine
	}
	return c
}

func init() {
	checks["C11"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "one schema per rule set: for each rule type all single rules, all pairs of rules with value variants and random larger sets, at every field position, plus every rule type on every field type; the plugin binary is run on each, and its exit status, response, output files and error text are judged against an independent table of contradictions; rule sets on which the documentation is silent are not judged"
		c.Assume = []string{"the contradiction table in check_rules.go", "protoc's descriptors"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed*1000003 + 11)
		rg := &ruleGen{g: g}
		mult := 1
		if c.Tier == "thorough" {
			mult = 12
		}
		scalar := []string{"single", "oneof", "nested", "proto2opt", "proto2req", "items", "values", "keys", "wrapper", "disabled"}
		k := 0
		add := func(t func(f *File) Type, r *Rules, pos ...string) {
			for _, p := range pos {
				if x := rg.place(p, t, r); x != nil {
					rg.out = append(rg.out, x)
				}
			}
		}
		// next spreads rule sets over positions; thorough tries several.
		next := func(t func(f *File) Type, r *Rules, ps []string) {
			for i := 0; i < mult && i < len(ps); i++ {
				add(t, r, ps[(k+i)%len(ps)])
			}
			k++
			if k%len(ps) == 0 {
				k += g.Intn(3)
			}
		}
		kindT := func(k Kind) func(*File) Type { return func(*File) Type { return Type{K: k} } }
		enumT := func(f *File) Type {
			return Type{K: KEnum, Enum: f.enum("Eq", EnumVal{"EZ", 0}, EnumVal{"EA", 1}, EnumVal{"EB", -5}, EnumVal{"EC", 70000})}
		}
		wt := func(m *Msg) func(*File) Type { return func(*File) Type { return Type{K: KMsg, Msg: m} } }
		for _, kd := range numKinds {
			for _, n := range g.numRuleSets(kd, 20*mult) {
				next(kindT(kd), numR(n), scalar)
			}
		}
		for _, by := range []bool{false, true} {
			kd := KString
			if by {
				kd = KBytes
			}
			for i, s := range g.strRuleSets(by, 250*mult) {
				if mult == 1 && i > 60 && i%2 == int(c.Seed)%2 {
					continue
				}
				next(kindT(kd), strR(s), scalar)
			}
		}
		msgPos := []string{"single", "oneof", "nested", "proto2opt", "items", "values", "disabled"}
		for _, d := range g.durRuleSets(40 * mult) {
			next(wt(wDuration), durR(d), msgPos)
		}
		for _, d := range g.tsRuleSets(40 * mult) {
			next(wt(wTimestamp), tsR(d), msgPos)
		}
		for m := 0; m < 64; m++ {
			e := &EnumRules{DefinedOnly: m&1 != 0}
			if m&2 != 0 {
				e.Const = ptr(int32(1))
			}
			switch m >> 2 & 3 {
			case 1:
				e.In = []int32{0, 1}
			case 2:
				e.In = []int32{1, 70000, -5, 2}
			case 3:
				e.In = []int32{-6}
			}
			switch m >> 4 & 3 {
			case 1:
				e.NotIn = []int32{70000}
			case 2:
				e.NotIn = []int32{3, -5}
			}
			for _, p := range []string{"single", "oneof", "nested", "proto2opt", "items", "values", "disabled"} {
				add(enumT, enumR(e), p)
			}
		}
		for m := 0; m < 8; m++ {
			a := &AnyRules{Required: m&1 != 0}
			if m&2 != 0 {
				a.In = []string{"type.googleapis.com/a", "b"}
			}
			if m&4 != 0 {
				a.NotIn = []string{"c"}
			}
			add(wt(wAny), anyR(a), msgPos...)
		}
		// message rules
		subT := func(f *File) Type {
			s := f.msg("SubQ")
			l := Single
			if f.Syntax == "proto2" {
				l = Optional
			}
			s.field("x", l, Type{K: KInt32}, nil)
			return Type{K: KMsg, Msg: s}
		}
		msgTypes := []func(*File) Type{subT, wt(wEmpty), wt(wAny), wt(wDuration), wt(wTimestamp), wt(wWrap[KString]), wt(wWrap[KInt64])}
		for m := 0; m < 4; m++ {
			for _, t := range msgTypes {
				add(t, msgR(m&1 != 0, m&2 != 0), "single", "oneof", "nested", "items", "values", "disabled", "repeated", "map")
			}
			for _, kd := range []Kind{KString, KInt64} {
				r := numR(&NumRules{K: KInt64, Gt: int64(3)})
				if kd == KString {
					r = strR(&StrRules{MinLen: u64(3)})
				}
				r.Msg = &MsgRules{Skip: m&1 != 0, Required: m&2 != 0}
				add(wt(wWrap[kd]), r, "single", "oneof", "nested", "disabled")
			}
			for _, kd := range []Kind{KInt32, KString, KBytes, KBool, KDouble} {
				add(kindT(kd), msgR(m&1 != 0, m&2 != 0), "single", "oneof", "nested", "items", "values", "keys", "disabled", "repeated", "map")
			}
		}
		// container rules
		for _, t := range append(append([]func(*File) Type{}, msgTypes...), kindT(KString), kindT(KInt32), kindT(KBytes), enumT) {
			for i, mm := range [][2]*uint64{{nil, nil}, {u64(0), u64(0)}, {u64(2), u64(2)}, {u64(3), u64(2)}, {u64(1), u64(9)}, {u64(10), u64(9)}, {u64(4), nil}, {nil, u64(0)}} {
				for _, b := range []bool{false, true} {
					ie := i%2 == 0
					add(t, repR(&RepRules{Min: mm[0], Max: mm[1], Unique: b, IgnoreEmpty: ie}), "repeated")
					add(t, mapR(&MapRules{Min: mm[0], Max: mm[1], NoSparse: b, IgnoreEmpty: ie}), "map")
				}
			}
		}
		// every rule type on every type
		types := []func(*File) Type{enumT, subT, wt(wEmpty), wt(wAny), wt(wDuration), wt(wTimestamp)}
		for kd := KFloat; kd <= KBytes; kd++ {
			types = append(types, kindT(kd))
			if wWrap[kd] != nil {
				types = append(types, wt(wWrap[kd]))
			}
		}
		var rules []*Rules
		for _, kd := range numKinds {
			rules = append(rules, numR(&NumRules{K: kd}), numR(&NumRules{K: kd, Gte: numFrom(kd, 2)}))
		}
		tr := true
		rules = append(rules, boolR(nil), boolR(&tr), strR(&StrRules{}), strR(&StrRules{MinLen: u64(2)}), strR(&StrRules{Bytes: true}), strR(&StrRules{Bytes: true, MinLen: u64(2)}),
			enumR(&EnumRules{}), enumR(&EnumRules{DefinedOnly: true}), repR(&RepRules{}), repR(&RepRules{Min: u64(1)}), mapR(&MapRules{}), mapR(&MapRules{Min: u64(1)}),
			anyR(&AnyRules{}), anyR(&AnyRules{Required: true}), durR(&DurRules{}), durR(&DurRules{Gt: &SN{1, 0}}), tsR(&TsRules{}), tsR(&TsRules{Lt: &SN{5, 0}}))
		for i, t := range types {
			for j, r := range rules {
				ps := []string{"single", "items", "values", "repeated", "map", "oneof", "nested", "keys", "proto2opt"}
				if mult > 1 {
					add(t, r, ps...)
				} else {
					add(t, r, "single", ps[1:][(i+j)%8], ps[1:][(i+j+3)%8])
				}
			}
		}
		// extreme but legal constants
		big := ^uint64(0)
		for _, sp := range []struct {
			n string
			t func(*File) Type
			r *Rules
		}{
			{"max_len-uint64max-with-prefix", kindT(KString), strR(&StrRules{MaxLen: &big, Prefix: ptr("a")})},
			{"max_bytes-uint64max", kindT(KString), strR(&StrRules{MaxBytes: &big})},
			{"bytes-max_len-uint64max", kindT(KBytes), strR(&StrRules{Bytes: true, MaxLen: &big})},
			{"duration-bounds-beyond-292-years", wt(wDuration), durR(&DurRules{Lt: &SN{20000000000, 0}, Gte: &SN{10000000000, 0}})},
			{"timestamp-bounds-2^64ns-apart", wt(wTimestamp), tsR(&TsRules{Lt: &SN{18446744073, 709551616}, Gte: &SN{0, 0}})},
			{"timestamp-bounds-full-range", wt(wTimestamp), tsR(&TsRules{Lte: &SN{253402300799, 999999999}, Gte: &SN{-62135596800, 0}})},
			{"duration-within-max", wt(wTimestamp), tsR(&TsRules{Within: &SN{315576000000, 999999999}})},
		} {
			x := rg.place("single", sp.t, sp.r)
			x.label = sp.n
			rg.out = append(rg.out, x)
		}
		// languages
		for i, x := range rg.out {
			if x.want == RBad && i%5 == 1 {
				x.params = []string{"lang=java", "lang=cc"}[i/5%2]
			}
		}
		src := filepath.Join(c.W.Dir, "src")
		s := &Suite{}
		for _, x := range rg.out {
			s.Files = append(s.Files, x.file)
		}
		files, err := c.W.writeProtos(src, s)
		if err != nil {
			return err
		}
		fs, err := c.W.descriptors(src, files, false)
		if err != nil {
			return err
		}
		// several files in one request: one bad file spoils all, imports do not count
		var multi []*ruleCase
		var good, bad []*ruleCase
		for _, x := range rg.out {
			if x.params != "lang=go,paths=source_relative" || x.pos == "disabled" {
				continue
			}
			switch x.want {
			case RGood:
				good = append(good, x)
			case RBad:
				bad = append(bad, x)
			}
		}
		for i := 0; i < 60*mult; i++ {
			b := bad[g.Intn(len(bad))]
			y := *b
			y.pos += "+others"
			y.targets = nil
			at := g.Intn(5)
			for j := 0; j < 5; j++ {
				if j == at {
					y.targets = append(y.targets, b.file.Path)
				} else {
					y.targets = append(y.targets, good[g.Intn(len(good))].file.Path)
				}
			}
			multi = append(multi, &y)
		}
		all := append(append([]*ruleCase{}, rg.out...), multi...)
		res := make([]*PluginRes, len(all))
		err = parallel(len(all), func(i int) error {
			x := all[i]
			if x.want == RUnknown {
				return nil
			}
			r, err := c.W.plugin(fs.request(x.targets, x.params))
			res[i] = r
			return err
		})
		if err != nil {
			return err
		}
		reasons := map[string]int{}
		for i, x := range all {
			if x.want == RUnknown {
				c.add("unspecified_not_run", 1)
				continue
			}
			r := res[i]
			c.Evals++
			d := ""
			switch {
			case x.want == RGood && r.failed():
				d = fmt.Sprintf("a consistent, well-typed rule set is rejected: exit %d %s", r.Code, tail(r.text(), 700))
			case x.want == RGood && (len(r.Files) == 0 || len(r.Files) != len(x.targets)):
				d = fmt.Sprintf("%d output files for %d target files", len(r.Files), len(x.targets))
			case x.want == RBad && !r.failed():
				d = fmt.Sprintf("accepted, must be rejected: %s", x.why)
			case x.want == RBad && len(r.Files) > 0:
				d = "rejected, but with output"
			case x.want == RBad && r.crashed():
				d = fmt.Sprintf("the plugin crashes instead of reporting %s: %s", x.why, tail(r.text(), 700))
			case x.want == RBad && !(strings.Contains(r.text(), x.m.Name) && strings.Contains(r.text(), x.f.Name)):
				d = fmt.Sprintf("the error does not name message %s and field %s: %s", x.m.Name, x.f.Name, tail(r.text(), 500))
			}
			if d != "" {
				key := fmt.Sprintf("%s:%s:%s:%s", x.pos, x.f.T.protoName(), ruleKey(x.f.R), x.params)
				if x.label != "" && x.pos == "single" {
					key = "special:" + x.label
				}
				c.violation(key, d, map[string]any{"schema": x.file.proto(), "targets": x.targets, "parameters": x.params, "expected": x.want.String(), "reason": x.why})
				continue
			}
			if x.want == RBad {
				c.add("observed_rejections", 1)
				w := x.why
				if strings.Contains(w, " rules on a ") {
					w = "type mismatch"
				}
				reasons[w]++
			} else {
				c.add("observed_acceptances", 1)
			}
			c.nontrivial(x.pos, x.f.T.protoName(), x.f.R.text(), x.params)
			if i%(1+len(all)/12) == 0 {
				c.sample(map[string]any{"field": x.f.T.protoName() + " [" + x.f.R.text() + "]", "position": x.pos, "params": x.params, "expected": x.want.String(), "reason": x.why, "exit": r.Code, "stderr_tail": tail(strings.TrimSpace(r.text()), 160)})
			}
		}
		c.Cov["rejection_reasons_seen"] = reasons
		if len(reasons) < 15 {
			return infra("vacuous run: only %d rejection reasons", len(reasons))
		}
		return nil
	}}
}

func ruleKey(r *Rules) string { return trunc(r.text(), 160) }
