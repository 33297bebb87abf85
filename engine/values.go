package main

// Boundary-aware candidate values, derived from the rules of a field.

import (
	"math"
	"math/big"
	"math/rand"
	"strings"
	"unicode/utf8"
)

type Gen struct {
	*rand.Rand
	PerFile  int  // messages per file, when set
	Syntax2  bool // strings may be invalid UTF-8
	MaxStr   int
	NoNil    bool // no typed-nil values (C++ and other decoders)
	Depth    int
	Rich     int // 0 quick, 1 thorough
	BigBytes bool
	At       int64 // clock offset the values are made for
}

func (g *Gen) now() SN { return (&Case{At: g.At}).now() }

func newGen(seed int64) *Gen { return &Gen{Rand: rand.New(rand.NewSource(seed)), MaxStr: 600} }

func dedup(in []any) (out []any) {
	seen := map[string]bool{}
	for _, v := range in {
		k := showVal(v)
		switch x := v.(type) {
		case float32:
			k = "f" + string(rune(math.Float32bits(x)&0xffff)) + string(rune(math.Float32bits(x)>>16)) + k
			if x == 0 && math.Signbit(float64(x)) {
				k = "-0"
			}
		case float64:
			if x == 0 && math.Signbit(x) {
				k = "-0"
			}
		case string:
			k = "s" + x
		case []byte:
			k = "b" + string(x)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return
}

// numAround returns neighbours of c within the kind's domain.
func numAround(k Kind, c any) []any {
	switch v := c.(type) {
	case float32:
		return []any{v, math.Nextafter32(v, float32(math.Inf(1))), math.Nextafter32(v, float32(math.Inf(-1))), v + 1, v - 1, -v}
	case float64:
		return []any{v, math.Nextafter(v, math.Inf(1)), math.Nextafter(v, math.Inf(-1)), v + 1, v - 1, -v, float64(float32(v))}
	case int32:
		return []any{v, v + 1, v - 1, -v, v ^ math.MinInt32}
	case int64:
		return []any{v, v + 1, v - 1, -v, v ^ math.MinInt64, int64(int32(v))}
	case uint32:
		return []any{v, v + 1, v - 1, v ^ 1<<31}
	case uint64:
		return []any{v, v + 1, v - 1, v ^ 1<<63, uint64(uint32(v))}
	}
	return nil
}

func numExtremes(k Kind) []any {
	switch zero(k).(type) {
	case float32:
		return []any{float32(0), float32(math.Copysign(0, -1)), float32(1), float32(-1), float32(math.MaxFloat32), float32(-math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}
	case float64:
		return []any{float64(0), math.Copysign(0, -1), float64(1), float64(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	case int32:
		return []any{int32(0), int32(1), int32(-1), int32(math.MaxInt32), int32(math.MinInt32)}
	case int64:
		return []any{int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(1 << 32)}
	case uint32:
		return []any{uint32(0), uint32(1), uint32(math.MaxUint32), uint32(1 << 31)}
	}
	return []any{uint64(0), uint64(1), uint64(math.MaxUint64), uint64(1 << 63), uint64(1 << 32)}
}

func (g *Gen) numRand(k Kind) any {
	switch zero(k).(type) {
	case float32:
		switch g.Intn(3) {
		case 0:
			return float32(g.Intn(2001) - 1000)
		case 1:
			return math.Float32frombits(g.Uint32()&0x7f7fffff | g.Uint32()&0x80000000)
		}
		return float32(g.NormFloat64() * 100)
	case float64:
		switch g.Intn(3) {
		case 0:
			return float64(g.Intn(2001) - 1000)
		case 1:
			return math.Float64frombits(g.Uint64()&0x7fdfffffffffffff | g.Uint64()&(1<<63))
		}
		return g.NormFloat64() * 100
	case int32:
		if g.Intn(2) == 0 {
			return int32(g.Intn(201) - 100)
		}
		return int32(g.Uint32())
	case int64:
		if g.Intn(2) == 0 {
			return int64(g.Intn(201) - 100)
		}
		return int64(g.Uint64())
	case uint32:
		if g.Intn(2) == 0 {
			return uint32(g.Intn(200))
		}
		return g.Uint32()
	}
	if g.Intn(2) == 0 {
		return uint64(g.Intn(200))
	}
	return g.Uint64()
}

func (g *Gen) numCands(k Kind, r *NumRules) (out []any) {
	if r != nil {
		cs := append([]any{}, r.In...)
		cs = append(cs, r.NotIn...)
		var bounds []any
		for _, c := range []any{r.Const, r.Lt, r.Lte, r.Gt, r.Gte} {
			if c != nil {
				cs = append(cs, c)
				bounds = append(bounds, c)
			}
		}
		for i, c := range cs {
			if len(cs) > 12 && i%8 != 0 && i < len(cs)-3 {
				out = append(out, c)
				continue
			}
			out = append(out, numAround(k, c)...)
		}
		if len(bounds) == 2 { // a value strictly between
			if a, ok := asF(bounds[0]); ok {
				b, _ := asF(bounds[1])
				m := a/2 + b/2
				if k == KFloat {
					out = append(out, float32(m))
				} else {
					out = append(out, m)
				}
			}
		}
	}
	out = append(out, numExtremes(k)...)
	for i := 0; i < 3+5*g.Rich; i++ {
		out = append(out, g.numRand(k))
	}
	return dedup(out)
}

var fillers = []string{"a", "é", "世", "😀", "Z", "\u0301"}

// strTarget builds a string of about n units around mandatory parts.
func strTarget(n int, unit func(string) int, fill, pre, mid, suf string) string {
	fixed := unit(pre) + unit(mid) + unit(suf)
	if n <= 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString(pre)
	need := n - fixed
	fu := unit(fill)
	var f strings.Builder
	for need >= fu && fu > 0 {
		f.WriteString(fill)
		need -= fu
	}
	for need > 0 {
		f.WriteString("x")
		need--
	}
	b.WriteString(f.String())
	b.WriteString(mid)
	b.WriteString(suf)
	return b.String()
}

func (g *Gen) strCands(r *StrRules) (out []any) {
	var ss []string
	add := func(x ...string) { ss = append(ss, x...) }
	add("", "a", "abc", "héllo", "日本語", "\x00", "a\x00b", " ", "\n", "😀😀")
	if r != nil {
		pre, mid, suf := deref(r.Prefix), deref(r.Contains), deref(r.Suffix)
		var lens []int
		for _, p := range []*uint64{r.Len, r.MinLen, r.MaxLen, r.LenBytes, r.MinBytes, r.MaxBytes} {
			if p != nil && *p < 100000 {
				lens = append(lens, int(*p)-1, int(*p), int(*p)+1)
			}
		}
		runes := func(s string) int { return utf8.RuneCountInString(s) }
		byts := func(s string) int { return len(s) }
		for _, l := range lens {
			for _, f := range fillers {
				add(strTarget(l, runes, f, pre, mid, suf), strTarget(l, byts, f, pre, mid, suf))
			}
			if r.Bytes {
				add(strTarget(l, byts, "\xff", pre, mid, suf))
			} else if g.Syntax2 {
				add(strTarget(l, runes, "\xff", pre, mid, suf), strTarget(l, byts, "\xc3", pre, mid, suf), strTarget(l, runes, "\xf0\x9f", pre, mid, suf))
			}
		}
		base := pre + "-" + mid + "-" + suf
		if pre+mid+suf != "" {
			add(base, pre+mid+suf, "x"+base, base+"x", pre, mid, suf, pre+suf, suf+mid+pre, mid+pre, suf+suf, pre+pre)
			if len(base) > 1 {
				add(base[1:], base[:len(base)-1], strings.ToUpper(base), strings.ToLower(base))
			}
			// overlap of prefix and suffix
			for i := 1; i < len(pre) && i < len(suf); i++ {
				if pre[len(pre)-i:] == suf[:i] {
					add(pre + suf[i:])
				}
			}
		}
		// heads and tails of long constants, in buffers of their own
		for _, a := range []string{pre, mid, suf, deref(r.NotContains)} {
			if len(a) < 16 {
				continue
			}
			for _, k := range []int{1, 7, 8, 15, 16, 17, 23, 24, 31, 32, 33, len(a) / 2, len(a) - 1} {
				if k < len(a) {
					add(a[:k], a[len(a)-k:])
				}
			}
		}
		if r.NotContains != nil {
			n := *r.NotContains
			add(n, "x"+n, n+"x", "x"+n+"y")
			if len(n) > 0 {
				add(n[1:], n[:len(n)-1], n[:len(n)/2]+"_"+n[len(n)/2:])
			}
			add(pre + mid + n + suf)
		}
		cs := append(append([]string{}, r.In...), r.NotIn...)
		if r.Const != nil {
			cs = append(cs, *r.Const)
		}
		for i, c := range cs {
			if len(cs) > 12 && i%8 != 0 && i < len(cs)-3 {
				add(c)
				continue
			}
			add(c, c+"x", "x"+c, c+" ", c+"\x00", strings.ToUpper(c), strings.ToLower(c))
			if len(c) > 0 {
				add(c[1:], c[:len(c)-1])
			}
		}
		if r.Pattern != nil {
			add(patSamples(*r.Pattern)...)
		}
		if r.WK != "" {
			add(fmtSamples(r.WK, r.Bytes, g)...)
		}
		if r.Regex != "" {
			add(headerSamples()...)
		}
	}
	for i := 0; i < 2+6*g.Rich; i++ {
		var b strings.Builder
		for n := g.Intn(12); n > 0; n-- {
			b.WriteRune([]rune{'a', 'b', '0', ' ', '-', '.', 'é', '世', '😀', '\'', '"', '\\', '\t', '%'}[g.Intn(14)])
		}
		add(b.String())
	}
	bytesKind := r != nil && r.Bytes
	for _, s := range ss {
		if len(s) > 300000 {
			continue
		}
		if bytesKind {
			out = append(out, []byte(s))
		} else if utf8.ValidString(s) || g.Syntax2 {
			out = append(out, s)
		}
	}
	return dedup(out)
}

func deref(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

var patTable = map[string][]string{}

// patSamples: probing strings for the fixed patterns used by the suites.
func patSamples(p string) []string {
	out := []string{"abc", "ABC", "123", "abc123", "123abc", " abc ", "abc\n", "\nabc", "a\nb", "xabcx", "aaaa", "é", "a-b", "a.b", "axb", "\"", "\\", "a\"b\\c", "`", "foo", "foobar", "foo bar", "bar", "\x01", "日本", "*"}
	return append(out, patTable[p]...)
}

func headerSamples() []string {
	var out []string
	for c := 0; c < 0x80; c++ {
		out = append(out, "a"+string(rune(c))+"b", string(rune(c)), string(rune(c))+"x", "x"+string(rune(c)))
	}
	return append(out, "content-type", ":authority", "::x", ":", "a:b", "x\r\ny: z", "abc\n", "abc\r", "é", "日本", "\u0080", "\u00ad", strings.Repeat("a", 500), "")
}

func fmtSamples(wk string, isBytes bool, g *Gen) (out []string) {
	a := func(s ...string) { out = append(out, s...) }
	rep := strings.Repeat
	lab63 := rep("a", 63)
	// a valid hostname of exactly n characters
	host := func(n int) string {
		var p []string
		for n > 0 {
			l := 63
			if n < 63 {
				l = n
			}
			if n-l == 1 {
				l--
			}
			p = append(p, rep("b", l))
			n -= l + 1
		}
		return strings.Join(p, ".")
	}
	ips := []string{"0.0.0.0", "1.2.3.4", "127.0.0.1", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.04", "1.2.3.4 ", " 1.2.3.4", "1..3.4", "1.2.3.-4", "a.b.c.d", "0x1.2.3.4", "1.2.3.4/24", "1.2.3.4:80", "1.2.3.4\x00", "1.2.3.4\x00x", "١.٢.٣.٤", "999.0.0.1", "1.2.3.1000", "1.2.3.",
		"::", "::1", "1::", "fe80::1", "fe80::1%eth0", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::2::3", ":::", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", "1:2:3:4:5:6:7::", "::1:2:3:4:5:6:7", "::1:2:3:4:5:6:7:8", "12345::", "g::", "FE80::ABCD", "::1.2.3.4", "64:ff9b::1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "::1.2.3", "::1.2.3.256", "::ffff:1.2.3.4", "::ffff:102:304", "[::1]", "::1\x00", "2001:db8::", "0:0:0:0:0:0:0:0", "1::8:", "1.2.3.4::", "::01.2.3.4", "2001:0db8:0000:0000:0000:ff00:0042:8329", "00001::"}
	hosts := []string{"a", "A", "example.com", "EXAMPLE.com", "example.com.", "example..com", ".example.com", "example.com..", ".", "..", "", "-a.com", "a-.com", "a.-b", "a.b-", "-", "a-b", "a--b.c", "xn--nxasmq6b", "foo_bar", "foo bar", " foo", "foo ", "foo\n", "a\x00b", "exa\tmple", "1", "0.0", "9a", "z9.Z0", "asciiß", "İ", "KELVIN", "example.com/", "a:80", "a,b", "a@b", "a/b", "a*b", "`", "{", "[", "@", "\x7f", "é.com", "日本.jp", "K", "ſ", "\u212a", "foo.\u212a.com", "a\u0307",
		lab63, lab63 + "a", lab63 + ".com", lab63 + "a.com", "x." + lab63, "x." + lab63 + "a", "x." + lab63 + "a.y", host(252), host(253), host(254), host(253) + ".", host(252) + ".", host(255), host(300), "." + host(20), host(20) + "..", "a.b-.c", "a.-.c", "a-.", "-a."}
	// every ASCII character in the places that matter
	each := func(tpl ...string) {
		for c := 0; c < 0x80; c++ {
			for _, t := range tpl {
				a(strings.ReplaceAll(t, "\x1a", string(rune(c))))
			}
		}
	}
	switch wk {
	case "ip", "ipv4", "ipv6":
		if !isBytes {
			each("1.2.3\x1a4", "1.2.3.4\x1a", "\x1a::1", "1::\x1a", "1:2\x1a3::", "::ffff:1.2.\x1a.4")
		}
		if isBytes {
			for _, n := range []int{0, 1, 3, 4, 5, 7, 8, 12, 15, 16, 17, 20, 32} {
				a(rep("\x01", n), rep("\x00", n), rep("\xff", n), rep("a", n))
			}
			a("\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\x01\x02\x03\x04", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xfe\x01\x02\x03\x04", "\x20\x01\x0d\xb8"+rep("\x00", 12), "127.0.0.1", "::1", "\x7f\x00\x00\x01")
			return
		}
		a(ips...)
		a("::ffff:0:0", "::fffe:1.2.3.4", "localhost", "example.com")
		for i := 0; i < 6+20*g.Rich; i++ {
			a(mutate(g, ips[g.Intn(len(ips))]))
		}
	case "hostname":
		each("\x1a", "a\x1ab", "\x1aa.com", "x.b\x1a", "x.a\x1ab.y")
		a(hosts...)
		a(ips...)
		for i := 0; i < 6+20*g.Rich; i++ {
			a(mutate(g, hosts[g.Intn(len(hosts))]))
		}
	case "address":
		each("\x1a", "a\x1ab", "1.2.3\x1a4", "1::\x1a")
		a(hosts...)
		a(ips...)
	case "email":
		each("a\x1ab@x.com", "ab@x\x1ay.com", "ab\x1ax.com", "ab@x.y\x1a")
		l64 := rep("l", 64)
		a("foo@bar.com", "a@b", "f.o.o@bar.com", "foo+tag@bar.co.uk", "foo@bar", "!#$%&'*+-/=?^_`{|}~@x.y", "John Smith <foo@bar.com>", "John <foo@-bar.com>", "J <"+l64+"@x.com>", "J <"+l64+"l@x.com>",
			"foo", "@", "foo@", "@bar.com", "foo@bar@baz.com", "foo@@bar", ".foo@bar.com", "foo.@bar.com", "f..o@bar.com", "foo@-bar.com", "foo@bar-.com", "foo@b_r.com", "foo@bar..com", "foo@.bar", "foo bar@x.com", "foo@bar .com", "foo@exa mple.com", "", " ", "foo@bar.com\n", "foo@bar.com, x@y.z", "<foo@bar.com>", "\"quoted\"@bar.com", "foo@[1.2.3.4]", "foo@1.2.3.4", "foo@bar.com.", "föö@bar.com", "foo@bär.com", "foo@\u212aelvin.com", "(c)foo@bar.com", "foo@bar,com", "mailto:foo@bar.com", "foo;bar@x.com",
			l64+"@x.com", l64+"l@x.com", "f@"+lab63, "f@"+lab63+"a", l64+"@"+host(189), l64+"@"+host(190), "f@"+host(252), "f@"+host(253), "fo@"+host(251), "fo@"+host(252), "X Y <"+l64+"@"+host(189)+">", "Very Long Display Name Which Does Not Count <"+l64+"@"+host(189)+">", rep("l", 63)+"@"+host(190), rep("l", 63)+"@"+host(191), rep("l", 100)+"@x", "f@"+host(254), "foo@xn--bcher-kva.example")
	case "uri", "uri_ref":
		each("http://x/a\x1ab", "x\x1ay:z", "http://h\x1ai/", "?a\x1ab", "#a\x1ab", "\x1a", "http://u\x1a@h", "a/%4\x1a", "http://h:8\x1a")
		base := []string{"http://example.com/foo/bar", "HTTPS://EXAMPLE.com:443/a?b=c#d", "ftp://user:pw@host/x", "mailto:foo@bar.com", "urn:isbn:0451450523", "tel:+1-816-555-1212", "file:///etc/passwd", "a+b-c.d://x", "x:y", "http://[::1]:8080/p", "http://1.2.3.4", "http://h:80", "http://h:", "news:comp.infosystems.www.servers.unix", "ldap://[2001:db8::7]/c=GB?objectClass?one", "http://a/%41%7e", "data:,x",
			"", "/", "/foo/bar", "foo/bar", "foo", "?q", "#f", "//host/path", "../x", "./a:b", "a/b:c", "foo?x=y:z", "%41", "!@#", "/a%2Fb",
			"1http://x", "://x", ":", ":foo", "+a://b", "ht tp://x", "http//x", "h_t:x", "http://a b/", "http://x/ y", "http://h:8a", "http://h:-1", "http://h:80:80", "http://[::1", "http://::1]", "http://x/%zz", "http://x/%4", "http://x/%", "%zz", "/%", "#%zz", "http://x#%z", "http://x?%zz", "http://x\x00y", "\x7f", "a\nb", "http://x/\r\n", "\thttp://x", "http://é.com/é", "日本", "http://x/<>", "-a:b", "é:b", "http://%zz/", "http:", "http:?q", "http://"}
		a(base...)
		for i := 0; i < 6+20*g.Rich; i++ {
			a(mutate(g, base[g.Intn(len(base))]))
		}
	case "uuid":
		u := "01234567-89ab-cdef-ABCD-EF0123456789"
		a(u, strings.ToUpper(u), strings.ToLower(u), "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", u+"0", "0"+u, u[1:], u[:35], u+"\n", "\n"+u, u+" ", "{"+u+"}", "urn:uuid:"+u, strings.ReplaceAll(u, "-", ""), strings.ReplaceAll(u, "-", "_"), u[:8]+u[9:]+"0", "0123456789ab-cdef-ABCD-EF01-23456789", u+u, "")
		for _, i := range []int{0, 8, 9, 13, 18, 23, 35} {
			each(u[:i] + "\x1a" + u[i+1:])
		}
		for i := 0; i < 36; i++ {
			for _, c := range "gG-0/:@`z_" {
				a(u[:i] + string(c) + u[i+1:])
			}
			a(u[:i] + u[i+1:])
		}
	}
	return
}

func mutate(g *Gen, s string) string {
	r := []rune(s)
	for n := 1 + g.Intn(2); n > 0; n-- {
		ch := []rune("abz09AZ.-:/%@#?[] _\x00\x1f\x7f\u00e9\u212a")[g.Intn(23)]
		switch g.Intn(4) {
		case 0:
			i := g.Intn(len(r) + 1)
			r = append(r[:i], append([]rune{ch}, r[i:]...)...)
		case 1:
			if len(r) > 0 {
				i := g.Intn(len(r))
				r = append(r[:i:i], r[i+1:]...)
			}
		case 2:
			if len(r) > 0 {
				r[g.Intn(len(r))] = ch
			}
		case 3:
			if len(r) > 1 {
				i := g.Intn(len(r) - 1)
				r[i], r[i+1] = r[i+1], r[i]
			}
		}
	}
	return string(r)
}

func snAround(s SN) []SN {
	add := func(x SN, n int64) SN {
		t := int64(x.N) + n
		sec := x.S
		if t < 0 {
			t += 1e9
			sec--
		} else if t >= 1e9 {
			t -= 1e9
			sec++
		}
		return SN{sec, int32(t)}
	}
	return []SN{s, add(s, 1), add(s, -1), {s.S + 1, s.N}, {s.S - 1, s.N}}
}

// snWraps gives the values that narrower arithmetic takes for c: 2^64 ns, 2^63 ns,
// 2^32 s and 2^32 us away.
func snWraps(c SN) (out []SN) {
	for _, d := range []string{"18446744073709551616", "9223372036854775808", "4294967296000000000", "4294967296000000"} {
		w, _ := new(big.Int).SetString(d, 10)
		out = append(out, bigSN(new(big.Int).Add(snNorm(c), w)), bigSN(new(big.Int).Sub(snNorm(c), w)))
	}
	return
}

// durNormSign turns (s, n>=0) into the signed duration form.
func durNormSign(s SN) SN {
	if s.S < 0 && s.N > 0 {
		return SN{s.S + 1, s.N - 1000000000}
	}
	if s.S > 0 && s.N < 0 {
		return SN{s.S - 1, s.N + 1000000000}
	}
	return s
}

func (g *Gen) durCands(r *DurRules) (out []SN) {
	var cs []SN
	if r != nil {
		for _, p := range []*SN{r.Const, r.Lt, r.Lte, r.Gt, r.Gte} {
			if p != nil {
				cs = append(cs, *p)
			}
		}
		cs = append(append(cs, r.In...), r.NotIn...)
	}
	for _, c := range cs {
		for _, x := range snAround(c) {
			out = append(out, durNormSign(x))
		}
		for _, x := range snWraps(c) {
			if x = durNormSign(x); durValid(x) {
				out = append(out, x)
			}
		}
		out = append(out, SN{-c.S, -c.N}, SN{c.S, 0}, SN{0, c.N})
	}
	out = append(out, SN{0, 0}, SN{1, 0}, SN{-1, 0}, SN{0, 1}, SN{0, -1}, SN{0, 999999999}, SN{0, -999999999},
		SN{315576000000, 0}, SN{-315576000000, 0}, SN{315576000000, 999999999}, SN{9223372036, 854775807}, SN{9223372036, 854775808}, SN{9223372037, 0}, SN{-9223372036, -854775808}, SN{-9223372037, 0},
		// malformed
		SN{1, -1}, SN{-1, 1}, SN{0, 1000000000}, SN{0, -1000000000}, SN{315576000001, 0}, SN{-315576000001, 0}, SN{math.MaxInt64, 0}, SN{math.MinInt64, 0}, SN{math.MaxInt64, math.MaxInt32}, SN{5, 2000000000})
	for i := 0; i < 2; i++ {
		out = append(out, SN{int64(g.Intn(1000)), int32(g.Intn(1e9))})
	}
	return
}

func (g *Gen) tsCands(r *TsRules, now SN) (out []SN) {
	var cs []SN
	if r != nil {
		for _, p := range []*SN{r.Const, r.Lt, r.Lte, r.Gt, r.Gte} {
			if p != nil {
				cs = append(cs, *p)
			}
		}
		if r.LtNow || r.GtNow || r.Within != nil {
			cs = append(cs, now)
			if w := r.Within; w != nil {
				b := snNorm(now)
				b.Add(b, snNorm(*w))
				q := bigSN(b)
				cs = append(cs, q)
				b = snNorm(now)
				b.Sub(b, snNorm(*w))
				cs = append(cs, bigSN(b))
			}
		}
	}
	for _, c := range cs {
		out = append(out, snAround(c)...)
		out = append(out, SN{c.S, 0})
		for _, x := range snWraps(c) {
			if x.S >= -62135596800 && x.S <= 253402300799 {
				out = append(out, x)
			}
		}
	}
	out = append(out, SN{0, 0}, SN{0, 1}, SN{-1, 999999999}, SN{1, 0}, SN{-62135596800, 0}, SN{253402300799, 999999999}, SN{253402300799, 0}, SN{-1000, 0}, SN{4000000000, 5}, SN{-9223372037, 0}, SN{9223372037, 0}, SN{20000000000, 0}, SN{-30000000000, 0},
		SN{0, -1}, SN{0, 1000000000}, SN{-62135596801, 0}, SN{253402300800, 0}, SN{math.MaxInt64, 0}, SN{math.MinInt64, 0}, SN{1, -5}, SN{0, math.MaxInt32}, SN{0, math.MinInt32})
	return
}

func dedupSN(in []SN) (out []SN) {
	seen := map[SN]bool{}
	for _, x := range in {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}

var fixedNow = SN{946684800, 0} // testing/synctest starts at 2000-01-01T00:00:00Z

type absent struct{}

// cands returns candidate values for one element of type t under rules r.
// A nil element means "unset" (only for message types in singular position).
func (g *Gen) cands(r *Rules, t Type, depth int) (out []any) {
	if r == nil {
		r = &Rules{}
	}
	if t.K == KMsg {
		switch {
		case r.Dur != nil || t.Msg == wDuration:
			for _, s := range dedupSN(g.durCands(r.Dur)) {
				out = append(out, snVal(wDuration, s))
			}
		case r.Ts != nil || t.Msg == wTimestamp:
			for _, s := range dedupSN(g.tsCands(r.Ts, g.now())) {
				out = append(out, snVal(wTimestamp, s))
			}
		case r.Any != nil || t.Msg == wAny:
			us := []string{"", "x", "type.googleapis.com/google.protobuf.Duration"}
			if r.Any != nil {
				for _, u := range append(append([]string{}, r.Any.In...), r.Any.NotIn...) {
					us = append(us, u, u+"x", "x"+u, strings.ToUpper(u))
					if len(u) > 0 {
						us = append(us, u[1:])
					}
				}
			}
			for _, u := range us {
				out = append(out, newVal(wAny).set("type_url", u).set("value", []byte{1}), newVal(wAny).set("type_url", u))
			}
		case isWrapper(t.Msg):
			k := t.Msg.Fields[0].T.K
			out = append(out, newVal(t.Msg))
			for _, v := range g.cands(&Rules{Typ: r.Typ, Num: r.Num, Str: r.Str, Bool: r.Bool, BoolS: r.BoolS}, Type{K: k}, depth) {
				out = append(out, wrapVal(k, v))
			}
		default:
			out = append(out, newVal(t.Msg))
			if depth > 0 {
				out = append(out, g.msgCands(t.Msg, depth-1)...)
			}
		}
		return
	}
	switch t.K {
	case KBool:
		return []any{false, true}
	case KEnum:
		ns := []int32{0, 1, 2, -1, 3, 5, 100, math.MaxInt32, math.MinInt32}
		for _, v := range t.Enum.Vals {
			ns = append(ns, v.N, v.N+1, v.N-1)
		}
		if r.Enum != nil {
			ns = append(append(ns, r.Enum.In...), r.Enum.NotIn...)
			if r.Enum.Const != nil {
				ns = append(ns, *r.Enum.Const)
			}
		}
		closed := t.Enum.File != nil && t.Enum.File.Syntax == "proto2"
		for _, n := range ns {
			if closed && !t.Enum.has(n) {
				continue // a closed enum cannot carry it through decoding
			}
			out = append(out, EnumNum(n))
		}
		return dedup(out)
	case KString:
		return g.strCands(r.Str)
	case KBytes:
		sr := r.Str
		if sr == nil {
			sr = &StrRules{Bytes: true}
		}
		return g.strCands(sr)
	}
	return g.numCands(t.K, r.Num)
}

// msgCands: a few contents for an embedded message.
func (g *Gen) msgCands(m *Msg, depth int) (out []any) {
	per := 4
	for _, f := range m.Fields {
		cs := g.fieldCands(f, depth)
		good, bad := 0, 0
		c := &Ctx{Now: g.now()}
		for _, x := range cs {
			v := newVal(m)
			if _, un := x.(absent); un {
				continue
			}
			v.F[f] = x
			e := c.evalField(v, f)
			if len(e) == 0 {
				if good >= per {
					continue
				}
				good++
			} else {
				if bad >= per {
					continue
				}
				bad++
			}
			out = append(out, v)
		}
	}
	// all fields good
	if v := g.valid(m, depth); v != nil {
		out = append(out, v)
	}
	return
}

// valid makes a value of m without violations, or nil.
func (g *Gen) valid(m *Msg, depth int) *MVal {
	v := newVal(m)
	c := &Ctx{Now: g.now()}
	for _, f := range m.Fields {
		if f.Oneof != nil {
			if !f.Oneof.Required {
				continue
			}
			set := false
			for _, o := range m.Fields {
				if o.Oneof == f.Oneof {
					if _, ok := v.F[o]; ok {
						set = true
					}
				}
			}
			if set {
				continue
			}
		}
		for _, x := range g.fieldCands(f, depth) {
			t := newVal(m)
			if _, un := x.(absent); !un {
				t.F[f] = x
			} else if f.Oneof != nil {
				continue
			}
			if len(c.evalField(t, f)) == 0 {
				if _, un := x.(absent); !un {
					v.F[f] = x
				}
				break
			}
		}
	}
	if c.evalMsg(v).may() {
		return nil
	}
	return v
}

func pick(g *Gen, xs []any, n int) []any {
	if len(xs) <= n {
		return xs
	}
	p := g.Perm(len(xs))[:n]
	var out []any
	for _, i := range p {
		out = append(out, xs[i])
	}
	return out
}

// fieldCands: candidate contents of a whole field; absent{} means unset.
func (g *Gen) fieldCands(f *Field, depth int) (out []any) {
	r := f.R
	if r == nil {
		r = &Rules{}
	}
	switch f.Label {
	case Repeated:
		rr := r.Rep
		if rr == nil {
			rr = &RepRules{}
		}
		el := g.cands(rr.Items, f.T, depth)
		if f.T.K == KMsg && !g.NoNil {
			el = append(el, &MVal{M: f.T.Msg, Nil: true})
		}
		c := &Ctx{Now: g.now()}
		var good, bad []any
		for _, e := range el {
			if len(c.evalValue(rr.Items, f.T, e, "", false)) == 0 {
				good = append(good, e)
			} else {
				bad = append(bad, e)
			}
		}
		out = append(out, absent{})
		// each element alone, and in different positions among good ones
		for _, e := range el {
			out = append(out, []any{e})
		}
		fill := good
		if len(fill) == 0 {
			fill = el
		}
		at := func(i int) any { return fill[i%len(fill)] }
		lens := []int{2, 3}
		for _, p := range []*uint64{rr.Min, rr.Max} {
			if p != nil && *p < 2000 {
				lens = append(lens, int(*p)-1, int(*p), int(*p)+1)
			}
		}
		if rr.Unique && g.Rich > 0 {
			lens = append(lens, 50)
		}
		for _, n := range lens {
			if n <= 0 {
				continue
			}
			var l, same []any
			for i := 0; i < n; i++ {
				l = append(l, at(i))
				same = append(same, at(0))
			}
			out = append(out, l, same)
			for _, pos := range []int{0, n / 2, n - 1} {
				for _, b := range pick(g, bad, 3) {
					m := append([]any{}, l...)
					m[pos] = b
					out = append(out, m)
				}
			}
			if n >= 2 { // duplicates at chosen distances
				d := append([]any{}, l...)
				d[n-1] = d[0]
				out = append(out, d)
			}
			if n >= 3 {
				d := append([]any{}, l...)
				d[1] = d[0]
				out = append(out, d)
				d = append([]any{}, l...)
				d[n-1] = d[n-2]
				out = append(out, d)
			}
		}
		if rr.Unique && rr.Items == nil {
			for _, n := range []int{9, 17, 33, 70, 260} {
				var l []any
				for i := 0; i < n; i++ {
					if x := synthElem(f.T.K, i); x != nil {
						l = append(l, x)
					}
				}
				if len(l) < n {
					break
				}
				out = append(out, l)
				for _, ij := range [][2]int{{0, n - 1}, {n/2 - 1, n / 2}, {n - 2, n - 1}, {0, 1}, {1, n / 2}} {
					d := append([]any{}, l...)
					d[ij[1]] = d[ij[0]]
					out = append(out, d)
				}
			}
		}
		if len(el) <= 40 {
			out = append(out, append([]any{}, el...))
		} else {
			out = append(out, pick(g, el, 30))
		}
		if len(el) > 1 {
			out = append(out, append(append([]any{}, pick(g, el, 4)...), pick(g, el, 4)...))
		}
		return
	case Map:
		mr := r.Map
		if mr == nil {
			mr = &MapRules{}
		}
		ks := dedupKeys(g.cands(mr.Keys, Type{K: f.KeyK}, 0))
		vs := g.cands(mr.Values, f.T, depth)
		if f.T.K == KMsg && !g.NoNil {
			vs = append(vs, &MVal{M: f.T.Msg, Nil: true})
		}
		c := &Ctx{Now: g.now()}
		var gk, bk, gv, bv []any
		for _, k := range ks {
			if mr.Keys == nil || len(c.evalValue(mr.Keys, Type{K: f.KeyK}, k, "", true)) == 0 {
				gk = append(gk, k)
			} else {
				bk = append(bk, k)
			}
		}
		for _, v := range vs {
			if nv, ok := v.(*MVal); ok && nv.Nil {
				bv = append(bv, v)
			} else if len(c.evalValue(mr.Values, f.T, v, "", false)) == 0 {
				gv = append(gv, v)
			} else {
				bv = append(bv, v)
			}
		}
		if len(gk) == 0 {
			gk = ks
		}
		if len(gv) == 0 {
			gv = vs
		}
		out = append(out, absent{})
		for _, k := range ks {
			out = append(out, []MapEnt{{k, gv[0]}})
		}
		for _, v := range vs {
			out = append(out, []MapEnt{{gk[0], v}})
		}
		lens := []int{2, 3}
		if mr.Keys == nil && f.KeyK != KBool {
			lens = append(lens, 40)
		}
		for _, p := range []*uint64{mr.Min, mr.Max} {
			if p != nil && *p < 500 {
				lens = append(lens, int(*p)-1, int(*p), int(*p)+1)
			}
		}
		keyN := func(i int) any {
			if i < len(gk) {
				return gk[i]
			}
			return synthKey(f.KeyK, i)
		}
		for _, n := range lens {
			if n <= 0 || f.KeyK == KBool && n > len(ks) {
				continue
			}
			var l []MapEnt
			for i := 0; i < n; i++ {
				l = append(l, MapEnt{keyN(i), gv[i%len(gv)]})
			}
			out = append(out, uniqKeys(l))
			for _, b := range pick(g, bv, 3) {
				m := append([]MapEnt{}, l...)
				m[g.Intn(n)].V = b
				out = append(out, uniqKeys(m))
			}
			for _, b := range pick(g, bk, 2) {
				m := append([]MapEnt{}, l...)
				m[g.Intn(n)].K = b
				out = append(out, uniqKeys(m))
			}
			if len(bv) > 0 && len(bk) > 0 {
				m := append([]MapEnt{}, l...)
				m[0].V = bv[0]
				m[n-1].K = bk[g.Intn(len(bk))]
				out = append(out, uniqKeys(m))
			}
		}
		return
	}
	if f.T.K == KMsg || f.Oneof != nil || f.Label == Optional {
		out = append(out, absent{})
	}
	if f.T.K == KMsg && f.Oneof != nil && !g.NoNil {
		out = append(out, &MVal{M: f.T.Msg, Nil: true})
	}
	out = append(out, f.Hints...)
	out = append(out, g.cands(r, f.T, depth)...)
	if f.Label == Required { // must stay set to be encodable
		return
	}
	return
}

func uniqKeys(l []MapEnt) []MapEnt {
	seen := map[any]bool{}
	var out []MapEnt
	for _, e := range l {
		if !seen[e.K] {
			seen[e.K] = true
			out = append(out, e)
		}
	}
	return out
}

func dedupKeys(in []any) (out []any) {
	seen := map[any]bool{}
	for _, k := range in {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return
}

// synthElem makes the i-th of many different elements, or nil.
func synthElem(k Kind, i int) any {
	switch k {
	case KBool, KEnum, KMsg:
		return nil
	case KFloat:
		return float32(i) + 0.5
	case KDouble:
		return float64(i) + 0.5
	case KBytes:
		return []byte(synthKey(KString, i).(string))
	}
	return synthKey(k, i)
}

func synthKey(k Kind, i int) any {
	switch zero(k).(type) {
	case int32:
		return int32(1000000 + i)
	case int64:
		return int64(1000000 + i)
	case uint32:
		return uint32(1000000 + i)
	case uint64:
		return uint64(1000000 + i)
	case bool:
		return i%2 == 0
	}
	return "synthkey" + strings.Repeat("k", i%7) + string(rune('a'+i%26)) + string(rune('a'+i/26%26))
}

// bigSN splits nanoseconds into seconds and a non-negative remainder.
func bigSN(b *big.Int) SN {
	q, m := new(big.Int).DivMod(b, big.NewInt(1_000_000_000), new(big.Int))
	return SN{q.Int64(), int32(m.Int64())}
}

func bigInt(x int64) *big.Int { return big.NewInt(x) }
