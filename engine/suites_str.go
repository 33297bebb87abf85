package main

import (
	"fmt"
	"strings"
)

var weird = []string{"plain", "two words", "tab\tnl\nend", "quote\"s", "back\\slash", "`tick`", "%d%s%%", "{{.X}}", "nul\x00in", "\x01\x02\x7f", "é", "日本語", "😀", "\u0080\u00ff", "\ufeff", "\u2028", "??/", "a\r\nb", "$1${x}", "*/ /*", "\x1fA", "\x011", "'", "<&>", " lead", "trail ", "\u00adb", "\U0001f600f00"}

var weirdBytes = []string{"plain", "\x00", "\x00\x01\x02", "\xff\xfe", "\x80A", "\x01f", "\x991", "\"\\`", "%s", "\n", "é", "\xe9", "\xf0\x9f\x98", "?\x00?", "\x7fA0"}

var patterns = []string{`^[a-z]+$`, `abc`, `(?i)^foo`, `\bfoo\b`, `^\d{3}$`, `a|b$`, `"`, "`", `\\`, `^[^[0-9]A-Za-z]+( [^[0-9]A-Za-z]+)*$`, `\p{L}$`, `^$`, `(?s)^a.b$`, `^a.b$`, `^\x01`, `日本`, `(?m)^abc$`, `^.{0,3}$`, `x*`, `\z`, `^\s*$`, "\t", `[%]`, `^(foo|bar)+$`, `^[[:upper:]]`, `\u00e9|é`}

func init() {
	patterns = patterns[:len(patterns)-1]
	patTable[`^\d{3}$`] = []string{"12", "123", "1234", "१२३", "123\n"}
	patTable[`^(foo|bar)+$`] = []string{"foo", "barfoo", "foobarx", "fo"}
	patTable[`^.{0,3}$`] = []string{"", "é日😀", "abcd", "ab\n"}
	patTable[`\p{L}$`] = []string{"1", "1é", "é1", "日"}
	patTable[`^\s*$`] = []string{"", " \t", "\u00a0", "x ", "\n"}
	patTable[`^\w+$`] = []string{"", "a_1", "é", "a b", "a\n"}
	patTable[`\\`] = []string{"\\", "a\\b", "/"}
}

// bigLens are list sizes around those where lookups change shape.
var bigLens = []int{5, 8, 9, 16, 17, 33, 64, 65, 130}

// bigStrs makes n different strings, unsorted, of uneven lengths.
func bigStrs(n int, by bool) (out []string) {
	for i := 0; i < n; i++ {
		j := (i*37 + 11) % 997
		s := fmt.Sprintf("%c%d", 'a'+j%26, j)
		switch i % 7 {
		case 2:
			s = strings.Repeat(s, 1+j%9)
		case 4:
			s = "é" + s
		case 5:
			s = s[:1] + "\x00" + s[1:]
		}
		if by && i%7 == 6 {
			s = "\xff" + s
		}
		out = append(out, s)
	}
	return
}

// strShapes lists rule sets for strings or bytes.
func (g *Gen) strShapes(by bool, lists bool, pats bool) (out []*StrRules) {
	r := func(f func(*StrRules)) {
		n := &StrRules{Bytes: by}
		f(n)
		out = append(out, n)
	}
	w := weird
	if by {
		w = weirdBytes
	}
	u := func(n int) *uint64 { return ptr(uint64(n)) }
	for _, s := range w {
		s := s
		r(func(n *StrRules) { n.Const = &s })
	}
	for i := 0; i < len(w); i++ {
		s := &w[i]
		switch i % 4 {
		case 0:
			r(func(n *StrRules) { n.Prefix = s })
			r(func(n *StrRules) { n.Suffix = s })
		case 1:
			r(func(n *StrRules) { n.Suffix = s })
			r(func(n *StrRules) { n.Contains = s })
		case 2:
			r(func(n *StrRules) { n.Contains = s })
			r(func(n *StrRules) { n.Prefix = s })
		}
		if !by {
			if i%2 == 1 {
				r(func(n *StrRules) { n.NotContains = s })
			}
		}
	}
	if lists {
		for i := 0; i+2 < len(w); i += 3 {
			r(func(n *StrRules) { n.In = w[i : i+3] })
			r(func(n *StrRules) { n.NotIn = append([]string{""}, w[i:i+3]...) })
			r(func(n *StrRules) { n.In = append([]string{""}, w[i:i+2]...) })
		}
		for i, n := range bigLens {
			l := bigStrs(n, by)
			if i%2 == 0 {
				r(func(n *StrRules) { n.In = l })
			} else {
				r(func(n *StrRules) { n.NotIn = l })
			}
		}
	}
	// longer than any buffer inside a string, with beginnings that recur
	long := "abcabcabcabcabcabcabcabdabcabcabcabcabcabcabcabc"
	r(func(n *StrRules) { n.Prefix = &long })
	r(func(n *StrRules) { n.Suffix = &long })
	r(func(n *StrRules) { n.Contains = &long })
	if !by {
		r(func(n *StrRules) { n.NotContains = &long })
	}
	r(func(n *StrRules) { n.Const = ptr("") })
	r(func(n *StrRules) { n.Prefix = ptr("") })
	r(func(n *StrRules) { n.Suffix = ptr("") })
	r(func(n *StrRules) { n.Contains = ptr("") })
	r(func(n *StrRules) { n.Prefix, n.Suffix, n.MinLen = ptr(""), ptr(""), u(1) })
	if !by {
		r(func(n *StrRules) { n.NotContains = ptr("") })
		r(func(n *StrRules) { n.NotContains, n.IgnoreEmpty = ptr(""), true })
	}
	if pats {
		r(func(n *StrRules) { n.Pattern = ptr("") })
	}
	r(func(n *StrRules) { n.Prefix = ptr("foo"); n.Suffix = ptr("oof"); n.Contains = ptr("of") })
	r(func(n *StrRules) { n.Prefix = ptr("aa"); n.MaxLen = u(5) })
	for _, l := range []int{0, 1, 3, 5, 17} {
		r(func(n *StrRules) { n.Len = u(l) })
		r(func(n *StrRules) { n.MinLen = u(l) })
		r(func(n *StrRules) { n.MaxLen = u(l) })
		r(func(n *StrRules) { n.MinLen, n.MaxLen = u(l), u(l) })
		r(func(n *StrRules) { n.MinLen, n.MaxLen = u(l), u(l+2) })
		if !by {
			r(func(n *StrRules) { n.LenBytes = u(l) })
			r(func(n *StrRules) { n.MinBytes = u(l) })
			r(func(n *StrRules) { n.MaxBytes = u(l) })
			r(func(n *StrRules) { n.MinBytes, n.MaxBytes = u(l), u(l) })
			r(func(n *StrRules) { n.MinBytes, n.MaxBytes = u(l), u(l+2) })
			r(func(n *StrRules) { n.MinLen, n.MaxBytes = u(l), u(l*2+1) })
			r(func(n *StrRules) { n.MaxLen, n.MinBytes = u(l), u(l) })
			r(func(n *StrRules) { n.Len, n.MinBytes, n.MaxBytes = u(l), u(l), u(l+3) })
			r(func(n *StrRules) { n.LenBytes, n.MinLen = u(l), u(l/2) })
			r(func(n *StrRules) { n.Len, n.LenBytes = u(l), u(l+1) })
			r(func(n *StrRules) { n.MinLen, n.MaxLen, n.MinBytes, n.MaxBytes = u(l), u(l+1), u(l+1), u(l+4) })
		}
	}
	r(func(n *StrRules) { n.MaxLen = u(255) })
	r(func(n *StrRules) { n.MinLen = u(256) })
	r(func(n *StrRules) { n.MaxLen = u(65536) })
	if pats {
		for i := range patterns {
			p := &patterns[i]
			r(func(n *StrRules) { n.Pattern = p })
		}
		r(func(n *StrRules) { n.Pattern = ptr(`^[a-c]*$`); n.MinLen = u(2); n.MaxLen = u(4) })
	}
	// random conjunctions
	for i := 0; i < 25+40*g.Rich; i++ {
		r(func(n *StrRules) {
			lo := g.Intn(6)
			switch g.Intn(4) {
			case 0:
				n.MinLen = u(lo)
			case 1:
				n.MaxLen = u(lo + 6)
			case 2:
				n.MinLen, n.MaxLen = u(lo), u(lo+6+g.Intn(3))
			}
			if !by && g.Intn(2) == 0 {
				n.MinBytes = u(lo + g.Intn(4))
			}
			aff := []string{"a", "ab", "é", "\"", "-", "b"}
			if g.Intn(2) == 0 {
				n.Prefix = ptr(aff[g.Intn(6)])
			}
			if g.Intn(2) == 0 {
				n.Suffix = ptr(aff[g.Intn(6)])
			}
			if g.Intn(3) == 0 {
				n.Contains = ptr(aff[g.Intn(6)])
			}
			if !by && g.Intn(3) == 0 {
				n.NotContains = ptr([]string{"z", "zz", "ab", "😀"}[g.Intn(4)])
			}
			if g.Intn(3) == 0 {
				n.NotIn = []string{"ab-b", "aé", "aaaa"}
				if !lists {
					n.NotIn = nil
				}
			}
			if pats && g.Intn(4) == 0 {
				n.Pattern = ptr(`[a-z]`)
			}
			n.IgnoreEmpty = g.Intn(3) == 0
		})
	}
	return
}

func (s *StrRules) ie() *StrRules { c := *s; c.IgnoreEmpty = true; return &c }

type strOpts struct {
	filter func(*StrRules) bool // skip shapes returning false
}

func strSuite(g *Gen, name string, o strOpts) *Suite {
	s := &Suite{}
	b := newBuilder(s, name, g)
	b.perMsg = 6
	keep := func(l []*StrRules) (out []*StrRules) {
		for _, x := range l {
			if o.filter == nil || o.filter(x) {
				out = append(out, x)
			}
		}
		return
	}
	for _, by := range []bool{false, true} {
		k := KString
		if by {
			k = KBytes
		}
		T := Type{K: k}
		for i, r := range keep(g.strShapes(by, true, true)) {
			b.add(Single, T, strR(r))
			if i%3 == 0 {
				b.add(Single, T, strR(r.ie()))
			}
		}
		for i, r := range keep(g.strShapes(by, true, true)) {
			x := strR(r)
			if i%4 == 1 {
				x = strR(r.ie())
			}
			if i%4 == 2 {
				x = x.required()
			}
			if i%2 == 0 {
				b.add(Single, Type{K: KMsg, Msg: wWrap[k]}, x)
			}
		}
		for i, r := range keep(g.strShapes(by, true, true)) {
			if i%3 == 0 {
				r = r.ie()
			}
			if i%2 == 0 {
				b.add(Repeated, T, repR(&RepRules{Items: strR(r)}))
			}
		}
		for i, r := range keep(g.strShapes(by, true, true)) {
			if i%2 == 0 {
				b.addMap([]Kind{KInt32, KString, KBool}[i%3], T, mapR(&MapRules{Values: strR(r)}))
			} else if !by {
				b.addMap(KString, Type{K: KInt32}, mapR(&MapRules{Keys: strR(r)}))
			}
		}
		sh := keep(g.strShapes(by, true, true))
		for i := 0; i < len(sh); i += 12 {
			m := b.newMsg()
			oo := m.oneof("pick", i%24 == 0)
			for j := i; j < i+6 && j < len(sh); j++ {
				m.field(fmt.Sprintf("f_%d", j-i+1), Single, T, strR(sh[j])).in(oo)
			}
			b.msg = nil
		}
		b.newMsg()
	}
	b2 := newBuilder(s, name+"p2", g)
	b2.syntax = "proto2"
	b2.perMsg = 6
	for _, by := range []bool{false, true} {
		k := KString
		if by {
			k = KBytes
		}
		for i, r := range keep(g.strShapes(by, true, true)) {
			f := b2.add([]Label{Optional, Optional, Required, Optional}[i%4], Type{K: k}, strR(r))
			if i%4 == 1 && !by {
				f.Default, f.DefLit = "dé", `"dé"`
			}
			if i%6 == 3 && !by {
				b2.add(Repeated, Type{K: k}, repR(&RepRules{Items: strR(r)}))
			}
		}
		b2.newMsg()
	}
	return s
}

// fmtSuite covers the well-known formats.
func fmtSuite(g *Gen, name string) *Suite {
	s := &Suite{}
	b := newBuilder(s, name, g)
	b.perMsg = 2
	b.perFile = 30
	S := Type{K: KString}
	wks := []string{"email", "hostname", "address", "ip", "ipv4", "ipv6", "uri", "uri_ref", "uuid"}
	var rules []*StrRules
	for _, w := range wks {
		rules = append(rules, &StrRules{WK: w}, &StrRules{WK: w, IgnoreEmpty: true})
	}
	for _, h := range []string{"HTTP_HEADER_NAME", "HTTP_HEADER_VALUE"} {
		rules = append(rules, &StrRules{Regex: h}, &StrRules{Regex: h, Strict: ptr(true)}, &StrRules{Regex: h, Strict: ptr(false)}, &StrRules{Regex: h, IgnoreEmpty: true}, &StrRules{Regex: h, Strict: ptr(false), IgnoreEmpty: true})
	}
	for _, r := range rules {
		b.add(Single, S, strR(r))
		b.add(Single, Type{K: KMsg, Msg: wWrap[KString]}, strR(r))
		b.add(Repeated, S, repR(&RepRules{Items: strR(r)}))
		b.addMap(KString, Type{K: KInt32}, mapR(&MapRules{Keys: strR(r)}))
		b.addMap(KInt64, S, mapR(&MapRules{Values: strR(r)}))
		m := b.newMsg()
		oo := m.oneof("pick", false)
		m.f("a_val", KString, strR(r)).in(oo)
		m.f("b_val", KInt32, nil).in(oo)
		b.newMsg()
	}
	// helper emission: messages with several helpers, and nested ones next to plain parents
	m := b.newMsg()
	for i, w := range wks {
		m.f(fmt.Sprintf("w_%d", i), KString, strR(&StrRules{WK: w, MaxLen: ptr(uint64(40))}))
	}
	m = b.newMsg()
	n := m.nested("Inner")
	for i, w := range wks {
		n.f(fmt.Sprintf("w_%d", i), KString, strR(&StrRules{WK: w}))
	}
	m.fm("inner", n, nil)
	b.newMsg()
	// explicit false means no rule at all
	B := Type{K: KBytes}
	for _, w := range []string{"ip", "ipv4", "ipv6"} {
		for _, ie := range []bool{false, true} {
			r := &StrRules{Bytes: true, WK: w, IgnoreEmpty: ie}
			b.add(Single, B, strR(r))
			b.add(Single, Type{K: KMsg, Msg: wWrap[KBytes]}, strR(r))
			b.add(Repeated, B, repR(&RepRules{Items: strR(r)}))
			b.addMap(KString, B, mapR(&MapRules{Values: strR(r)}))
		}
	}
	b2 := newBuilder(s, name+"p2", g)
	b2.syntax, b2.perMsg = "proto2", 2
	for _, w := range wks {
		b2.add(Optional, S, strR(&StrRules{WK: w}))
		b2.add(Optional, Type{K: KString}, strR(&StrRules{WK: w, IgnoreEmpty: true}))
	}
	return s
}
