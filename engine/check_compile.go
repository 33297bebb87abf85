package main

// C13: every accepted schema yields code that compiles.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type srcFile struct {
	path, text string
	noPGV      bool
}

type compCase struct {
	key    string // identifies the shape
	files  []srcFile
	dir    string // Go package directory of the main file
	desc   string
	skipGo bool // protoc-gen-go's own output does not compile or is refused
	goErr  string
	ccErr  string
	jErr   string
	langs  string // languages that generated
}

type compGen struct {
	g     *Gen
	cases []*compCase
	n     int
}

func (cg *compGen) add(key, desc string, pkgDir string, files ...srcFile) *compCase {
	c := &compCase{key: key, desc: desc, dir: pkgDir, files: files}
	cg.cases = append(cg.cases, c)
	return c
}

func shapeKey(pos string, t Type, r *Rules) string {
	txt := regexp.MustCompile(`[a-z_0-9]+: ?`).FindAllString(regexp.MustCompile(`"(\\.|[^"\\])*"`).ReplaceAllString(r.text(), "S"), -1)
	m := map[string]bool{}
	for _, x := range txt {
		m[strings.TrimRight(x, ": ")] = true
	}
	n := t.protoName()
	if t.K == KEnum {
		n = "enum"
	} else if t.K == KMsg && t.Msg.WKT == "" {
		n = "message"
	}
	return pos + ":" + strings.TrimPrefix(n, ".google.protobuf.") + ":" + strings.Join(sortedKeys(m), "+")
}

// ruleShape adds one schema with rules r on type t at pos.
func (cg *compGen) ruleShape(pos string, t func(*File) Type, r *Rules, keySuffix string) {
	rg := &ruleGen{g: cg.g, n: cg.n}
	x := rg.place(pos, t, r)
	cg.n = rg.n
	if x == nil {
		return
	}
	if v, why := fieldVerdict(x.f); v != RGood && why != "unsatisfiable enum rules" && why != "no satisfying value known" && why != "const with now rules" && why != "NaN" {
		return
	}
	k := cg.n % 24
	dir := fmt.Sprintf("c13/k%d", k)
	x.file.Path = fmt.Sprintf("%s/q%d.proto", dir, cg.n)
	x.file.Pkg = fmt.Sprintf("c13.p%d", cg.n)
	x.file.GoPkg = fmt.Sprintf("vgen/%s;k%d", dir, k)
	for _, m := range x.file.Msgs {
		m.all(func(y *Msg) {
			y.Full = x.file.Pkg + y.Full[strings.Index(y.Full, fmt.Sprintf("p%d.", cg.n))+len(fmt.Sprintf("p%d", cg.n)):]
		})
		// one Go package for many files: top-level names must differ
		if m.Name == "SubQ" {
			m.Name = fmt.Sprintf("SubQ%d", cg.n)
			m.Full = x.file.Pkg + "." + m.Name
		}
	}
	for _, e := range x.file.Enums {
		e.Name = fmt.Sprintf("Eq%d", cg.n)
		e.Full = x.file.Pkg + "." + e.Name
		for i := range e.Vals {
			e.Vals[i].Name = fmt.Sprintf("%s_%d", e.Vals[i].Name, cg.n)
		}
	}
	ft := x.f.T
	key := shapeKey(pos, ft, r)
	if keySuffix != "" {
		key += "#" + keySuffix
	}
	cg.add(key, ft.protoName()+" "+pos+" ["+x.f.R.text()+"]", dir, srcFile{path: x.file.Path, text: x.file.proto()})
}

var goErrRe = regexp.MustCompile(`(?m)^(?:\./)?(\S+?\.go):(\d+)(?::\d+)?: (.*)$`)
var protoErrRe = regexp.MustCompile(`^(\S+\.proto):`)
var ccErrRe = regexp.MustCompile(`(?m)^(\S+?\.pb\.validate\.(?:h|cc)):(\d+):\d+: (?:fatal )?error: (.*)$`)

func (cg *compGen) rules(rich int) {
	g := cg.g
	pos := []string{"single", "oneof", "nested", "proto2opt", "proto2req", "items", "values", "keys", "wrapper", "disabled"}
	kindT := func(k Kind) func(*File) Type { return func(*File) Type { return Type{K: k} } }
	enumT := func(f *File) Type {
		return Type{K: KEnum, Enum: f.enum("Eq", EnumVal{"EZ", 0}, EnumVal{"EA", 1}, EnumVal{"EB", -5}, EnumVal{"EC", 70000})}
	}
	wt := func(m *Msg) func(*File) Type { return func(*File) Type { return Type{K: KMsg, Msg: m} } }
	for _, k := range numKinds {
		mn, mx := numMinMax(k)
		a, b := numFrom(k, 3), numFrom(k, 7)
		var rs []*NumRules
		rs = append(rs, &NumRules{K: k}, &NumRules{K: k, Const: a}, &NumRules{K: k, Lt: a}, &NumRules{K: k, Lte: a}, &NumRules{K: k, Gt: a}, &NumRules{K: k, Gte: a},
			&NumRules{K: k, Gt: a, Lt: b}, &NumRules{K: k, Gte: a, Lte: b}, &NumRules{K: k, Gt: b, Lt: a}, &NumRules{K: k, Gte: b, Lte: a}, &NumRules{K: k, Gt: a, Lte: b}, &NumRules{K: k, Gte: b, Lt: a},
			&NumRules{K: k, In: []any{a}}, &NumRules{K: k, In: []any{a, b, mn, mx}}, &NumRules{K: k, NotIn: []any{a, b, mn, mx}}, &NumRules{K: k, NotIn: []any{a}, Gt: mn},
			&NumRules{K: k, Const: mn}, &NumRules{K: k, Const: mx}, &NumRules{K: k, Gte: mn, Lte: mx}, &NumRules{K: k, Gt: mx}, &NumRules{K: k, Lt: mn},
			(&NumRules{K: k, Gt: a, Lt: b}).ie(), (&NumRules{K: k, In: []any{a, b}}).ie(), (&NumRules{K: k}).ie())
		if k == KFloat || k == KDouble {
			for _, f := range []float64{0.1, 1e-30, -0.0, 1e30, 123456789.123, 16777217, 1.5e-45, 3} {
				rs = append(rs, &NumRules{K: k, Const: numFrom(k, f)}, &NumRules{K: k, Gt: numFrom(k, f)})
			}
		}
		for i, r := range rs {
			for j, p := range pos {
				if rich == 0 && i > 12 && (i+j)%3 > 0 {
					continue
				}
				cg.ruleShape(p, kindT(k), numR(r), "")
			}
		}
	}
	if true {
		inf, nan := numFrom(KDouble, 0).(float64), 0.0
		inf = 1 / (inf + 0)
		nan = inf - inf
		for _, k := range []Kind{KFloat, KDouble} {
			for n, f := range map[string]float64{"inf": inf, "-inf": -inf, "nan": nan} {
				cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, Const: numFrom(k, f)}), n)
				cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, Lte: numFrom(k, f)}), n)
				cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, Gt: numFrom(k, f)}), n)
				cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, In: []any{numFrom(k, f)}}), n)
				cg.ruleShape("items", kindT(k), numR(&NumRules{K: k, Gte: numFrom(k, f)}), n)
			}
			cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, In: []any{numFrom(k, 0), numFrom(k, 1), numFrom(k, 0)}}), "dup")
		}
		for _, k := range []Kind{KInt32, KUint64, KSfixed64} {
			cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, In: []any{numFrom(k, 1), numFrom(k, 2), numFrom(k, 1)}}), "dup")
			cg.ruleShape("single", kindT(k), numR(&NumRules{K: k, NotIn: []any{numFrom(k, 1), numFrom(k, 1)}}), "dup")
		}
		cg.ruleShape("single", kindT(KString), strR(&StrRules{In: []string{"a", "b", "a"}}), "dup")
		cg.ruleShape("single", kindT(KBytes), strR(&StrRules{Bytes: true, NotIn: []string{"a", "a"}}), "dup")
		cg.ruleShape("single", enumT, enumR(&EnumRules{In: []int32{1, 1}}), "dup")
		big, half := ^uint64(0), uint64(1)<<63
		okbig := half - 1
		for n, v := range map[string]*uint64{"uint64max": &big, "2^63": &half, "2^63-1": &okbig} {
			cg.ruleShape("single", kindT(KString), strR(&StrRules{MinLen: v}), n)
			cg.ruleShape("single", kindT(KString), strR(&StrRules{LenBytes: v}), n)
			cg.ruleShape("single", kindT(KBytes), strR(&StrRules{Bytes: true, MinLen: v}), n)
			for _, k := range []Kind{KString, KInt32} {
				cg.ruleShape("repeated", kindT(k), repR(&RepRules{Min: v}), n)
				cg.ruleShape("repeated", kindT(k), repR(&RepRules{Max: v}), n)
				cg.ruleShape("map", kindT(k), mapR(&MapRules{Min: v}), n)
				cg.ruleShape("map", kindT(k), mapR(&MapRules{Max: v}), n)
			}
		}
	}
	odd := []string{"", "a", `"`, `\`, "`", "a\nb\tc\r", "\x00", "\x00b", "\x01F", "é", "日本語", "\U0001F600", "%s%d%", "{{ .X }}", "??/", "*/ //", "'", "$", "\\u0041", "a\\", "\u2028", "\x7f", "<T>&amp;", "\ufeff", "/* */", "#define", "R\"(x)\"", "\\x41", "\x1b9", "é9", "\u00ffF"}
	oddKey := func(s string) string { return fmt.Sprintf("%x", s) }
	for _, o := range odd {
		s := o
		for _, r := range []*StrRules{{Const: &s}, {Prefix: &s}, {Suffix: &s}, {Contains: &s}, {NotContains: &s}, {In: []string{s, "zz"}}, {NotIn: []string{s}}} {
			cg.ruleShape("single", kindT(KString), strR(r), oddKey(s))
			if r.NotContains == nil {
				b := *r
				b.Bytes = true
				cg.ruleShape("single", kindT(KBytes), strR(&b), oddKey(s))
			}
			if len(r.In) > 0 {
				cg.ruleShape("items", kindT(KString), strR(r), oddKey(s))
			}
		}
		p := regexp.QuoteMeta(s)
		cg.ruleShape("single", kindT(KString), strR(&StrRules{Pattern: &p}), oddKey(s))
		cg.ruleShape("items", kindT(KString), strR(&StrRules{Pattern: &p}), oddKey(s))
		cg.ruleShape("single", kindT(KBytes), strR(&StrRules{Bytes: true, Pattern: &p}), oddKey(s))
		cg.ruleShape("values", kindT(KString), strR(&StrRules{Const: &s}), oddKey(s))
		cg.ruleShape("single", wt(wAny), anyR(&AnyRules{In: []string{s, "q"}}), oddKey(s))
	}
	for _, s := range []string{"\xff", "\xff\xfe\x00", "\x80", "\xc3", "\x0f\x00F", "\x00\x00"} {
		s := s
		for _, r := range []*StrRules{{Const: &s}, {Prefix: &s}, {Suffix: &s}, {Contains: &s}, {In: []string{s}}, {NotIn: []string{s, "a"}}} {
			r.Bytes = true
			cg.ruleShape("single", kindT(KBytes), strR(r), oddKey(s))
		}
	}
	for _, p := range []string{`^[a-z]+$`, `(?i)^x`, "`", `\d+\.\d*`, `"`, `\\`, `^[^\x00-\x08]*$`, `\x{10FFFF}`, `\pL+`, `a|b|`, `^(?P<n>a)$`, "\u0000", "é+", `\Qa.b\E`, `[[:alpha:]]`, `\C`, `(?s).`, `\z`} {
		p := p
		for _, po := range []string{"single", "items", "values", "keys", "oneof", "wrapper", "proto2opt"} {
			cg.ruleShape(po, kindT(KString), strR(&StrRules{Pattern: &p}), oddKey(p))
		}
		cg.ruleShape("single", kindT(KBytes), strR(&StrRules{Bytes: true, Pattern: &p}), oddKey(p))
	}
	for _, by := range []bool{false, true} {
		k := KString
		if by {
			k = KBytes
		}
		for i, r := range g.strRuleSets(by, 60+900*rich) {
			for j, p := range pos {
				if i > 34 && (i+j)%10 != 0 && !(rich > 0 && (i+j)%10 < 4) {
					continue
				}
				cg.ruleShape(p, kindT(k), strR(r), "")
			}
		}
	}
	for _, p := range pos {
		tr, fa := true, false
		for _, b := range []*bool{nil, &tr, &fa} {
			cg.ruleShape(p, kindT(KBool), boolR(b), "")
		}
		for m := 0; m < 64; m++ {
			e := &EnumRules{DefinedOnly: m&1 != 0}
			if m&2 != 0 {
				e.Const = ptr(int32(1))
			}
			switch m >> 2 & 3 {
			case 1:
				e.In = []int32{0, 1}
			case 2:
				e.In = []int32{1, 70000, -5}
			case 3:
				e.In = []int32{-6}
			}
			switch m >> 4 & 3 {
			case 1:
				e.NotIn = []int32{70000}
			case 2:
				e.NotIn = []int32{3, -5}
			case 3:
				continue
			}
			if p != "keys" && p != "wrapper" {
				cg.ruleShape(p, enumT, enumR(e), "")
			}
		}
	}
	msgPos := []string{"single", "oneof", "nested", "proto2opt", "proto2req", "items", "values", "disabled"}
	for m := 0; m < 8; m++ {
		a := &AnyRules{Required: m&1 != 0}
		if m&2 != 0 {
			a.In = []string{"type.googleapis.com/a", "b"}
		}
		if m&4 != 0 {
			a.NotIn = []string{"c"}
		}
		for _, p := range msgPos {
			cg.ruleShape(p, wt(wAny), anyR(a), "")
		}
	}
	sn := []*SN{{3, 500}, {7, 0}, {-2, -5}, {0, 0}, {0, 999999999}, {9223372036, 854775807}, {-9223372036, -854775807}}
	var durs []*DurRules
	for _, x := range sn {
		durs = append(durs, &DurRules{Const: x}, &DurRules{Lt: x}, &DurRules{Lte: x}, &DurRules{Gt: x}, &DurRules{Gte: x}, &DurRules{In: []SN{*x}}, &DurRules{NotIn: []SN{*x, {1, 1}}}, &DurRules{Gt: x, Required: true})
	}
	a, b := sn[0], sn[1]
	durs = append(durs, &DurRules{}, &DurRules{Required: true}, &DurRules{Gt: a, Lt: b}, &DurRules{Gte: a, Lte: b}, &DurRules{Gt: b, Lt: a}, &DurRules{Gte: b, Lte: a}, &DurRules{Gt: a, Lte: b}, &DurRules{Gte: b, Lt: a}, &DurRules{NotIn: []SN{{1, 0}}, Lt: b})
	for i, d := range durs {
		for j, p := range msgPos {
			if rich > 0 || i >= 56 || (i+j)%3 == 0 {
				cg.ruleShape(p, wt(wDuration), durR(d), "")
			}
		}
	}
	for n, x := range map[string]SN{"300y": {9467280000, 0}, "-300y": {-9467280000, 0}, "max": {315576000000, 999999999}} {
		x := x
		cg.ruleShape("single", wt(wDuration), durR(&DurRules{Const: &x}), n)
		cg.ruleShape("single", wt(wDuration), durR(&DurRules{Lt: &x}), n)
		cg.ruleShape("single", wt(wDuration), durR(&DurRules{Gte: &x}), n)
		cg.ruleShape("single", wt(wDuration), durR(&DurRules{In: []SN{x}}), n)
		cg.ruleShape("single", wt(wDuration), durR(&DurRules{NotIn: []SN{x}}), n)
		if x.S > 0 {
			cg.ruleShape("single", wt(wTimestamp), tsR(&TsRules{Within: &x}), n)
		}
	}
	cg.ruleShape("single", wt(wDuration), durR(&DurRules{In: []SN{{1, 0}, {1, 0}}}), "dup")
	var tss []*TsRules
	for _, x := range []*SN{{3, 500}, {1700000000, 0}, {-5, 999999999}, {253402300799, 999999999}, {-62135596800, 0}, {0, 0}} {
		tss = append(tss, &TsRules{Const: x}, &TsRules{Lt: x}, &TsRules{Lte: x}, &TsRules{Gt: x}, &TsRules{Gte: x, Required: true})
	}
	tss = append(tss, &TsRules{}, &TsRules{Required: true}, &TsRules{LtNow: true}, &TsRules{GtNow: true}, &TsRules{Within: &SN{60, 5}}, &TsRules{LtNow: true, Within: &SN{60, 0}}, &TsRules{GtNow: true, Within: &SN{0, 1}, Required: true},
		&TsRules{Gt: a, Lt: b}, &TsRules{Gte: a, Lte: b}, &TsRules{Gt: b, Lt: a}, &TsRules{Gte: b, Lte: a}, &TsRules{Gt: a, Lte: b}, &TsRules{Gte: b, Lt: a})
	for i, d := range tss {
		for j, p := range msgPos {
			if rich > 0 || i >= 30 || (i+j)%3 == 0 {
				cg.ruleShape(p, wt(wTimestamp), tsR(d), "")
			}
		}
	}
	subT := func(f *File) Type {
		s := f.msg("SubQ")
		l := Single
		if f.Syntax == "proto2" {
			l = Optional
		}
		s.field("x", l, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(2)}))
		return Type{K: KMsg, Msg: s}
	}
	msgTypes := []func(*File) Type{subT, wt(wEmpty), wt(wWrap[KString]), wt(wWrap[KInt64]), wt(wWrap[KBytes]), wt(wWrap[KBool]), wt(wAny), wt(wDuration), wt(wTimestamp)}
	for _, t := range msgTypes {
		for m := 0; m < 4; m++ {
			for _, p := range msgPos {
				cg.ruleShape(p, t, msgR(m&1 != 0, m&2 != 0), "")
			}
		}
		for _, p := range append([]string{"repeated", "map"}, msgPos...) {
			cg.ruleShape(p, t, &Rules{}, "norules")
		}
	}
	for _, k := range []Kind{KString, KInt64, KFloat, KDouble, KInt32, KUint32, KUint64, KBool, KBytes} {
		var r *Rules
		switch k {
		case KString:
			r = strR(&StrRules{MinLen: u64(3)})
		case KBytes:
			r = strR(&StrRules{Bytes: true, MinLen: u64(3)})
		case KBool:
			r = boolR(ptr(true))
		default:
			r = numR(&NumRules{K: k, Gt: numFrom(k, 3)})
		}
		w := wt(wWrap[k])
		for _, p := range []string{"single", "oneof", "nested", "items", "values", "proto2opt", "disabled"} {
			cg.ruleShape(p, w, r, "")
			cg.ruleShape(p, w, r.required(), "")
		}
	}
	for _, t := range append(append([]func(*File) Type{}, msgTypes...), kindT(KString), kindT(KInt32), kindT(KBytes), kindT(KFloat), kindT(KBool), enumT) {
		for i, mm := range [][2]*uint64{{nil, nil}, {u64(0), u64(0)}, {u64(2), u64(2)}, {u64(1), u64(9)}, {u64(4), nil}, {nil, u64(0)}, {u64(0), u64(3)}} {
			for bi, b := range []bool{false, true} {
				ie := (i+bi)%2 == 0
				cg.ruleShape("repeated", t, repR(&RepRules{Min: mm[0], Max: mm[1], Unique: b, IgnoreEmpty: ie}), "")
				cg.ruleShape("map", t, mapR(&MapRules{Min: mm[0], Max: mm[1], NoSparse: b, IgnoreEmpty: ie}), "")
			}
		}
	}
	// keys and values together
	sr := func(p string) *Rules { return strR(&StrRules{Pattern: &p}) }
	cg.ruleShape("map", kindT(KInt32), mapR(&MapRules{Keys: numR(&NumRules{K: KInt64, Gt: int64(1)}), Values: numR(&NumRules{K: KInt32, Lt: int32(9)})}), "both")
	_ = sr
	for i, mk := range []struct{ k, v *Rules }{{sr("^a"), sr("b$")}, {sr("^a"), strR(&StrRules{MinLen: u64(2)})}, {strR(&StrRules{MinLen: u64(2)}), sr("b$")}, {strR(&StrRules{MaxLen: u64(2)}), strR(&StrRules{MaxLen: u64(2)})}, {strR(&StrRules{WK: "uuid"}), strR(&StrRules{WK: "email"})}, {strR(&StrRules{In: []string{"a"}}), nil}, {nil, strR(&StrRules{NotIn: []string{"a"}})}} {
		cg.n++
		k := cg.n % 24
		dir := fmt.Sprintf("c13/k%d", k)
		f := &File{Path: fmt.Sprintf("%s/q%d.proto", dir, cg.n), Pkg: fmt.Sprintf("c13.p%d", cg.n), Syntax: "proto3", GoPkg: fmt.Sprintf("vgen/%s;k%d", dir, k)}
		m := f.msg(fmt.Sprintf("Mq%dz", cg.n))
		m.mp("f", KString, Type{K: KString}, mapR(&MapRules{Keys: mk.k, Values: mk.v}))
		cg.add(fmt.Sprintf("map-key-and-value:%d", i), "map<string,string> "+m.Fields[0].R.text(), dir, srcFile{path: f.Path, text: f.proto()})
	}
}

// raw adds a schema given as text; each gets a Go package of its own.
func (cg *compGen) raw(key, syntax, body string) *compCase {
	cg.n++
	id := fmt.Sprintf("h%d", cg.n)
	dir := "c13/" + id
	text := fmt.Sprintf("syntax = %q;\npackage c13.%s;\noption go_package = \"vgen/%s;%s\";\nimport \"validate/validate.proto\";\nimport \"google/protobuf/wrappers.proto\";\nimport \"google/protobuf/duration.proto\";\nimport \"google/protobuf/timestamp.proto\";\nimport \"google/protobuf/any.proto\";\n%s\n", syntax, id, dir, id, body)
	return cg.add(key, body, dir, srcFile{path: dir + "/s.proto", text: text})
}

func (cg *compGen) multi(key string, files map[string]string) *compCase {
	cg.n++
	id := fmt.Sprintf("h%d", cg.n)
	dir := "c13/" + id
	var fs []srcFile
	for _, p := range sortedKeys(files) {
		t := strings.ReplaceAll(files[p], "@", dir)
		t = strings.ReplaceAll(t, "~", id)
		fs = append(fs, srcFile{path: dir + "/" + strings.TrimPrefix(p, "!"), text: t, noPGV: strings.HasPrefix(p, "!")})
	}
	return cg.add(key, files[sortedKeys(files)[0]], dir, fs...)
}

const multiHead = "syntax = \"proto3\";\npackage c13.~.%s;\noption go_package = \"vgen/@/%s\";\nimport \"validate/validate.proto\";\n"

func (cg *compGen) naming(rich int) {
	rules := []string{"int32 %s = 1 [(validate.rules).int32 = {gt: 1, lt: 9}];", "string %s = 1 [(validate.rules).string = {in: \"a\", in: \"b\"}];", "string %s = 1 [(validate.rules).string = {pattern: \"^a+$\", min_len: 2}];",
		"repeated string %s = 1 [(validate.rules).repeated = {unique: true, min_items: 1, items: {string: {pattern: \"x\"}}}];", "map<string, int64> %s = 1 [(validate.rules).map = {min_pairs: 1, keys: {string: {min_len: 1}}, values: {int64: {gt: 3}}}];",
		"google.protobuf.StringValue %s = 1 [(validate.rules).string = {email: true}];", "google.protobuf.Duration %s = 1 [(validate.rules).duration = {required: true, gt: {seconds: 1}}];", "google.protobuf.Timestamp %s = 1 [(validate.rules).timestamp = {required: true, lt_now: true, within: {seconds: 5}}];",
		"google.protobuf.Any %s = 1 [(validate.rules).any = {required: true, in: \"x\"}];", "N %s = 1 [(validate.rules).message.required = true];", "string %s = 1 [(validate.rules).string.uuid = true];", "string %s = 1 [(validate.rules).string.hostname = true];", "E %s = 1 [(validate.rules).enum = {defined_only: true, not_in: [1]}];", "bytes %s = 1 [(validate.rules).bytes = {in: \"a\", in: \"b\"}];", "repeated N %s = 1 [(validate.rules).repeated.min_items = 1];", "string %s = 1 [(validate.rules).string.uri = true];"}
	names := []string{"m", "err", "errors", "idx", "key", "val", "item", "all", "v", "ok", "l", "ip", "uri", "dur", "ts", "d", "t", "lt", "gt", "now", "within", "exists",
		"type", "func", "range", "map", "chan", "select", "interface", "package", "import", "return", "var", "const", "go", "defer", "struct", "switch", "case", "default", "break", "continue", "goto", "fallthrough", "if", "else", "for", "string", "error", "nil", "true", "len", "append", "make", "new", "iota", "fmt", "strings", "regexp", "time", "net", "url", "utf8", "bytes", "mail", "ptypes", "anypb", "unicode", "sort",
		"int", "float", "double", "long", "short", "char", "unsigned", "signed", "void", "class", "public", "private", "protected", "virtual", "template", "typename", "namespace", "using", "static", "extern", "inline", "operator", "this", "delete", "try", "catch", "throw", "friend", "explicit", "mutable", "volatile", "register", "auto", "do", "while", "sizeof", "typedef", "union", "enum", "bool", "and", "or", "not", "xor", "nullptr", "constexpr", "noexcept", "decltype", "static_assert", "thread_local", "alignas", "asm", "wchar_t", "std", "pgv", "size", "value", "data", "begin", "end", "first", "second", "inner_err", "pgv_validate", "set", "unimplemented",
		"abstract", "assert", "boolean", "byte", "extends", "final", "finally", "implements", "instanceof", "native", "null", "strictfp", "super", "synchronized", "throws", "transient", "proto", "index", "clazz", "io", "com", "java",
		"get_x", "has_x", "set_x", "clear_x", "x_count", "x_list", "x_map", "x_bytes", "x_value", "foo_bar_baz", "fooBar", "FooBar", "foo_Bar", "foo__bar", "foo_", "_foo", "foo1", "foo_1", "foo_1bar", "foo1bar", "f1_2_3", "FOO", "FOO_BAR", "x_y_z", "a1b2c3", "URL", "httpURL",
		"reset", "descriptor", "marshal", "unmarshal", "string_", "proto_message", "proto_reflect", "size_", "extension_map", "serialized_size", "class_", "hash_code", "to_builder", "unknown_fields", "parser_for_type", "default_instance", "is_initialized", "cached_size", "swap", "merge_from", "copy_from", "get_metadata", "byte_size",
		"validate", "validate_all", "field", "reason", "cause", "error_name", "all_errors"}
	tail := "\nmessage N { int32 q = 1 [(validate.rules).int32.gt = 1]; }\nenum E { EZERO = 0; EONE = 1; ETWO = 2; }\n"
	for i, n := range names {
		var b strings.Builder
		// several rules per name, each in its own message, so that the name meets every template
		cnt := 4
		if rich > 0 {
			cnt = len(rules)
		}
		for j := 0; j < cnt; j++ {
			r := rules[(i*4+j)%len(rules)]
			fmt.Fprintf(&b, "message M%d { %s string pad = 2; }\n", j, fmt.Sprintf(r, n))
		}
		fmt.Fprintf(&b, "message O { oneof choice { option (validate.required) = true; int32 %s = 1 [(validate.rules).int32.in = 3]; N other_%d = 2; } }\n", n, i)
		if strings.TrimSpace(n) != "" {
			fmt.Fprintf(&b, "message P { oneof %s { option (validate.required) = true; int32 aa = 1 [(validate.rules).int32.gt = 3]; N bb = 2; } }\n", n)
		}
		cg.raw("field-name:"+n, "proto3", b.String()+tail)
	}
	// pairs of field names
	for _, p := range [][2]string{{"x", "get_x"}, {"x", "has_x"}, {"x", "x_"}, {"a_b", "a_B"}, {"foo", "foo_count"}, {"foo", "foo_list"}, {"foo", "foo_map"}, {"foo", "foo_bytes"}, {"f_in_lookup", "f"}, {"foo_1", "foo_2"}, {"foo", "set_foo"}} {
		cg.raw("field-pair:"+p[0]+","+p[1], "proto3", fmt.Sprintf("message M { int32 %s = 1 [(validate.rules).int32 = {in: 1, in: 2}]; int32 %s = 2 [(validate.rules).int32 = {in: 1, in: 2}]; }", p[0], p[1])+
			fmt.Sprintf("message R { repeated string %s = 1 [(validate.rules).repeated = {unique: true}]; string %s = 2 [(validate.rules).string = {pattern: \"a\"}]; }", p[0], p[1]))
	}
	// message names
	body := "int32 x = 1 [(validate.rules).int32 = {in: 1, in: 2}]; string s = 2 [(validate.rules).string = {uuid: true}]; string h = 3 [(validate.rules).string = {email: true}];"
	for _, n := range []string{"Error", "String", "Validate", "Any", "Duration", "Timestamp", "StringValue", "Message", "Object", "Class", "Type", "foo", "fooBar", "foo_bar", "Foo_Bar", "FOO", "FOO_BAR", "F", "f", "Foo1", "Foo_1", "_Foo", "Foo_", "HTTPServer", "MultiError", "ValidationError", "FooValidationError", "FooMultiError", "Errors", "Int", "Map", "Set", "List", "Context", "Time", "Regexp", "Url", "Strings", "Fmt", "Net", "Mail", "Utf8", "Builder", "Validator", "ValidatorIndex", "Pattern", "Override", "Exception", "Integer", "Long", "Iterable", "Std", "Pgv", "Namespace", "Template", "Int32", "func", "type", "class", "interface", "Bytes", "Sort", "Anypb", "Unicode"} {
		cg.raw("message-name:"+n, "proto3", fmt.Sprintf("message %s { %s }\nmessage Holder { %s a = 1 [(validate.rules).message.required = true]; repeated %s b = 2 [(validate.rules).repeated.min_items = 1]; map<string, %s> c = 3 [(validate.rules).map.no_sparse = true]; oneof o { %s d = 4; } }", n, body, n, n, n, n))
		cg.raw("nested-name:"+n, "proto3", fmt.Sprintf("message Outer { message %s { %s } enum En { ZZ = 0; YY = 1; } %s a = 1 [(validate.rules).message.required = true]; En e = 2 [(validate.rules).enum = {in: [0, 1], defined_only: true}]; repeated En es = 3 [(validate.rules).repeated = {items: {enum: {defined_only: true}}}]; }", n, body, n))
		cg.raw("enum-name:"+n, "proto3", fmt.Sprintf("enum %s { AA_ZERO = 0; AA_ONE = 1; AA_NEG = -1; }\nmessage Holder { %s a = 1 [(validate.rules).enum = {in: [0, 1], defined_only: true}]; repeated %s b = 2 [(validate.rules).repeated = {unique: true, items: {enum: {defined_only: true, not_in: [1]}}}]; map<string, %s> c = 3 [(validate.rules).map.values.enum = {defined_only: true, const: 0}]; oneof o { %s d = 4 [(validate.rules).enum = {const: 1, not_in: [0]}]; } }", n, n, n, n, n))
	}
	// structure
	for k, b := range map[string]string{
		"err-type-collision":       "message Foo { int32 x = 1 [(validate.rules).int32.gt = 1]; } message FooValidationError { int32 y = 1; }",
		"multierr-type-collision":  "message Foo { int32 x = 1 [(validate.rules).int32.gt = 1]; } message FooMultiError { int32 y = 1; }",
		"same-nested-names":        "message A { message C { int32 x = 1 [(validate.rules).int32 = {in: 1}]; } C c = 1; } message B { message C { int32 x = 1 [(validate.rules).int32 = {in: 2}]; } C c = 1; A.C d = 2; }",
		"same-nested-enums":        "message A { enum E { Z = 0; Y = 1; } E e = 1 [(validate.rules).enum = {in: [0], defined_only: true}]; } message B { enum E { Z = 0; Y = 2; } E e = 1 [(validate.rules).enum = {in: [2]}]; A.E f = 2 [(validate.rules).enum.defined_only = true]; repeated A.E g = 3 [(validate.rules).repeated.items.enum.defined_only = true]; map<int32, A.E> h = 4 [(validate.rules).map.values.enum.defined_only = true]; }",
		"same-fields-two-msgs":     "message A { string s = 1 [(validate.rules).string = {pattern: \"a\"}]; } message B { string s = 1 [(validate.rules).string = {pattern: \"b\"}]; } message A2 { message B2 { string s = 1 [(validate.rules).string = {pattern: \"c\", }]; } B2 s = 1; }",
		"deep-nesting":             "message A { message B { message C { message D { message E { string s = 1 [(validate.rules).string = {uuid: true}]; E e = 2; } E e = 1 [(validate.rules).message.required = true]; } D d = 1; } C c = 1; } B b = 1; }",
		"recursive":                "message A { A a = 1 [(validate.rules).message.required = true]; repeated A as = 2; map<string, A> am = 3; B b = 4; } message B { A a = 1; oneof o { option (validate.required) = true; B b = 2; A c = 3; } }",
		"empty-messages":           "message A {} message B { A a = 1 [(validate.rules).message.required = true]; } message C { message D {} enum E { Q = 0; } }",
		"disabled-ignored":         "message A { option (validate.disabled) = true; string s = 1 [(validate.rules).string = {uuid: true, pattern: \"x\"}]; repeated int32 r = 2 [(validate.rules).repeated.unique = true]; oneof o { option (validate.required) = true; int32 q = 3; } } message B { option (validate.ignored) = true; string s = 1 [(validate.rules).string.email = true]; } message C { A a = 1; B b = 2; repeated B bs = 3; map<string, A> as = 4; }",
		"ignored-only":             "message B { option (validate.ignored) = true; string s = 1 [(validate.rules).string.uuid = true]; message In { string t = 1 [(validate.rules).string.hostname = true]; } In i = 2; }",
		"no-rules":                 "message A { int32 x = 1; B b = 2; } message B { repeated string s = 1; map<int32, B> m = 2; oneof o { bool z = 3; bytes y = 4; } }",
		"only-enum":                "enum Only { OZ = 0; OO = 1; }",
		"only-service":             "message A { int32 x = 1; } service S { rpc M(A) returns (stream A); }",
		"enum-alias":               "enum E { option allow_alias = true; EZ = 0; EA = 1; EB = 1; EC = -1; } message M { E e = 1 [(validate.rules).enum = {defined_only: true, in: [1, -1]}]; repeated E es = 2 [(validate.rules).repeated.items.enum = {defined_only: true}]; }",
		"enum-extremes":            "enum E { EZ = 0; EMAX = 2147483647; EMIN = -2147483648; } message M { E e = 1 [(validate.rules).enum = {defined_only: true, in: [2147483647, -2147483648]}]; E f = 2 [(validate.rules).enum = {const: -2147483648}]; E g = 3 [(validate.rules).enum = {not_in: [-2147483648]}]; }",
		"all-string-helpers":       "message A { string a = 1 [(validate.rules).string.email = true]; message B { string b = 1 [(validate.rules).string.hostname = true]; message C { string c = 1 [(validate.rules).string.uuid = true]; string d = 2 [(validate.rules).string.address = true]; } } } message D { repeated string a = 1 [(validate.rules).repeated.items.string.email = true]; map<string, string> m = 2 [(validate.rules).map = {keys: {string: {uuid: true}}, values: {string: {hostname: true}}}]; google.protobuf.StringValue w = 3 [(validate.rules).string.uuid = true]; oneof o { string e = 4 [(validate.rules).string.address = true]; google.protobuf.StringValue f = 5 [(validate.rules).string.email = true]; } }",
		"two-oneofs":               "message A { oneof a { option (validate.required) = true; int32 x = 1 [(validate.rules).int32 = {gt: 1}]; string y = 2 [(validate.rules).string.uuid = true]; A z = 3; google.protobuf.Duration d = 4 [(validate.rules).duration.gt.seconds = 1]; google.protobuf.Timestamp t = 5 [(validate.rules).timestamp.lt_now = true]; google.protobuf.Any n = 6 [(validate.rules).any.required = true]; google.protobuf.Int32Value w = 7 [(validate.rules).int32 = {in: 3}]; bytes b = 8 [(validate.rules).bytes = {in: \"a\"}]; } int32 mid = 9 [(validate.rules).int32.lt = 4]; oneof b { int32 q = 10; string r = 11 [(validate.rules).string.min_len = 1]; } }",
		"oneof-member-like-nested": "message A { message X { int32 q = 1; } oneof o { X x = 1; int32 y = 2 [(validate.rules).int32.gt = 1]; } message Y { int32 z = 1; } Y yy = 3; }",
		"many-fields":              "message A { " + manyFields(60) + " }",
		"big-field-numbers":        "message A { int32 x = 536870911 [(validate.rules).int32.gt = 1]; string y = 18999 [(validate.rules).string.min_len = 1]; }",
		"lookup-name-collision":    "message A { message B { string c = 1 [(validate.rules).string = {in: \"x\"}]; } string B_C = 1 [(validate.rules).string = {in: \"y\"}]; }",
		"json-names":               "message A { int32 x = 1 [json_name = \"err\", (validate.rules).int32.gt = 1]; }",
		"deprecated-packed":        "message A { repeated int32 x = 1 [packed = false, deprecated = true, (validate.rules).repeated.unique = true]; }",
		"reserved-ext":             "message A { reserved 2, 15, 9 to 11; reserved \"foo\"; int32 x = 1 [(validate.rules).int32.gt = 1]; }",
	} {
		cg.raw("struct:"+k, "proto3", b)
	}
	for k, b := range map[string]string{
		"group":            "message A { optional group G = 1 { optional int32 x = 1 [(validate.rules).int32.gt = 1]; } optional int32 y = 2; }",
		"repeated-group":   "message A { repeated group G = 1 { optional int32 x = 1; } }",
		"extensions":       "message A { extensions 100 to 200; optional int32 y = 2 [(validate.rules).int32.gt = 1]; } extend A { optional string ext = 100; }",
		"nested-extension": "message A { extensions 100 to max; message B { extend A { optional B b = 101; } optional int32 q = 1 [(validate.rules).int32.lt = 3]; } optional B b = 1; }",
		"defaults":         "message A { optional int32 a = 1 [default = -5, (validate.rules).int32 = {gt: 1}]; optional string s = 2 [default = \"a\\\"b\\\\\", (validate.rules).string = {in: \"q\"}]; optional bytes b = 3 [default = \"\\000\\377\", (validate.rules).bytes = {prefix: \"\\377\"}]; optional float f = 4 [default = inf, (validate.rules).float = {in: [1.5]}]; optional E e = 5 [default = EB, (validate.rules).enum = {in: [2], defined_only: true}]; optional bool z = 6 [default = true, (validate.rules).bool.const = false]; required double d = 7 [default = nan, (validate.rules).double = {not_in: [2.5]}]; required uint64 u = 8 [default = 18446744073709551615, (validate.rules).uint64 = {not_in: [18446744073709551615], lt: 5}]; } enum E { EA = 1; EB = 2; }",
		"required-all":     "message A { required string s = 1 [(validate.rules).string = {pattern: \"a\", uuid: true}]; required bytes b = 2 [(validate.rules).bytes = {pattern: \"a\", ip: true}]; required A a = 3 [(validate.rules).message.required = true]; required google.protobuf.Duration d = 4 [(validate.rules).duration = {required: true, in: [{seconds: 1}]}]; required google.protobuf.Timestamp t = 5 [(validate.rules).timestamp = {required: true, gt_now: true}]; required google.protobuf.Any n = 6 [(validate.rules).any = {required: true}]; required google.protobuf.BoolValue w = 7 [(validate.rules).bool.const = true]; }",
		"enum-no-zero":     "enum E { A1 = 5; A2 = -9; } message M { optional E e = 1 [(validate.rules).enum = {defined_only: true}]; required E f = 2 [(validate.rules).enum = {const: 5}]; repeated E g = 3 [(validate.rules).repeated = {unique: true, items: {enum: {defined_only: true}}}]; }",
		"oneof-proto2":     "message M { oneof o { option (validate.required) = true; int32 a = 1 [(validate.rules).int32 = {in: 1}]; string b = 2 [(validate.rules).string = {pattern: \"x\"}]; E e = 3 [(validate.rules).enum = {defined_only: true, in: [1]}]; bytes y = 4 [(validate.rules).bytes = {not_in: \"x\"}]; M m = 5 [(validate.rules).message.required = true]; } } enum E { A1 = 1; }",
		"map-proto2":       "message M { map<string, M> a = 1 [(validate.rules).map = {min_pairs: 1, no_sparse: true, keys: {string: {min_len: 1}}}]; map<int32, E> b = 2 [(validate.rules).map.values.enum.defined_only = true]; } enum E { A0 = 0; A1 = 1; }",
	} {
		cg.raw("proto2:"+k, "proto2", b)
	}
	// several files
	H := func(p, g string) string { return fmt.Sprintf(multiHead, p, g) }
	enumUse := `
message U {
  ~T a = 1 [(validate.rules).enum = {defined_only: true, in: [0, 1]}];
  repeated ~T b = 2 [(validate.rules).repeated = {unique: true, items: {enum: {defined_only: true}}}];
  map<string, ~T> c = 3 [(validate.rules).map.values.enum = {defined_only: true}];
  oneof o { ~T d = 4 [(validate.rules).enum = {defined_only: true, not_in: [1]}]; }
}`
	eachUse := map[string]string{"single": "T a = 1 [(validate.rules).enum = {defined_only: true, in: [0, 1]}];", "single-in-only": "T a = 1 [(validate.rules).enum = {in: [0, 1]}];", "single-const": "T a = 1 [(validate.rules).enum = {const: 1}];", "repeated": "repeated T a = 1 [(validate.rules).repeated = {items: {enum: {defined_only: true}}}];", "repeated-unique": "repeated T a = 1 [(validate.rules).repeated = {unique: true}];", "repeated-in": "repeated T a = 1 [(validate.rules).repeated = {items: {enum: {in: [1]}}}];", "map": "map<string, T> a = 1 [(validate.rules).map.values.enum = {defined_only: true}];", "oneof": "oneof o { T a = 1 [(validate.rules).enum = {defined_only: true, not_in: [1]}]; }", "norules": "T a = 1;", "repeated-norules": "repeated T a = 1;", "min-items": "repeated T a = 1 [(validate.rules).repeated.min_items = 2];"}
	_ = enumUse
	for _, u := range sortedKeys(eachUse) {
		for variant, typ := range map[string]string{"top": ".c13.~.dep.E", "nested": ".c13.~.dep.Outer.E"} {
			dep := H("dep", "dep") + "enum E { EZ = 0; EO = 1; } message Outer { enum E { NZ = 0; NO = 1; } int32 x = 1 [(validate.rules).int32.gt = 1]; }\n"
			cg.multi("external-enum:"+u+":"+variant, map[string]string{"dep/dep.proto": dep, "use/use.proto": H("use", "use") + "import \"@/dep/dep.proto\";\nmessage U { " + strings.ReplaceAll(eachUse[u], "T a", typ+" a") + " }\n"})
			cg.multi("external-enum:"+u+":"+variant+":nested-user", map[string]string{"dep/dep.proto": dep, "use/use.proto": H("use", "use") + "import \"@/dep/dep.proto\";\nmessage W { message U { " + strings.ReplaceAll(strings.ReplaceAll(eachUse[u], "T a", typ+" a"), "map<string, T>", "map<string, "+typ+">") + " } U u = 1; }\n"})
			// other file, same Go package
			cg.multi("other-file-enum:"+u+":"+variant, map[string]string{"dep/dep.proto": H("dep", "dep") + "enum E { EZ = 0; EO = 1; } message Outer { enum E { NZ = 0; NO = 1; } }\n", "dep/use.proto": H("dep", "dep") + "import \"@/dep/dep.proto\";\nmessage U { " + strings.ReplaceAll(strings.ReplaceAll(eachUse[u], "T a", typ+" a"), "map<string, T>", "map<string, "+typ+">") + " }\n"})
			// other proto package, same Go package
			cg.multi("other-pkg-same-go-enum:"+u+":"+variant, map[string]string{"dep/dep.proto": H("dep", "dep") + "enum E { EZ = 0; EO = 1; } message Outer { enum E { NZ = 0; NO = 1; } }\n", "dep/use.proto": H("use", "dep") + "import \"@/dep/dep.proto\";\nmessage U { " + strings.ReplaceAll(strings.ReplaceAll(eachUse[u], "T a", typ+" a"), "map<string, T>", "map<string, "+typ+">") + " }\n"})
		}
	}
	msgUse := "message U { .c13.~.dep.D a = 1 [(validate.rules).message.required = true]; repeated .c13.~.dep.D b = 2 [(validate.rules).repeated.min_items = 1]; map<string, .c13.~.dep.D> c = 3 [(validate.rules).map.no_sparse = true]; oneof o { .c13.~.dep.D d = 4; .c13.~.dep.D.In e = 5; } }\n"
	depMsg := "message D { int32 x = 1 [(validate.rules).int32.gt = 1]; message In { string s = 1 [(validate.rules).string.uuid = true]; } }\n"
	cg.multi("external-message", map[string]string{"dep/dep.proto": H("dep", "dep") + depMsg, "use/use.proto": H("use", "use") + "import \"@/dep/dep.proto\";\n" + msgUse})
	cg.multi("other-file-message", map[string]string{"dep/dep.proto": H("dep", "dep") + depMsg, "dep/use.proto": H("dep", "dep") + "import \"@/dep/dep.proto\";\n" + msgUse})
	cg.multi("public-import", map[string]string{"dep/dep.proto": H("dep", "dep") + depMsg, "mid/mid.proto": H("mid", "mid") + "import public \"@/dep/dep.proto\";\nmessage Mid { .c13.~.dep.D d = 1; }\n", "use/use.proto": H("use", "use") + "import \"@/mid/mid.proto\";\n" + msgUse})
	cg.multi("unvalidated-dependency", map[string]string{"!dep/dep.proto": strings.Replace(H("dep", "dep"), "import \"validate/validate.proto\";\n", "", 1) + "message D { int32 x = 1; message In { string s = 1; } }\n", "use/use.proto": H("use", "use") + "import \"@/dep/dep.proto\";\n" + msgUse})
	cg.multi("two-enum-packages-same-name", map[string]string{"a/types/t.proto": H("atypes", "a/types") + "enum E { AZ = 0; AO = 1; }\n", "b/types/t.proto": H("btypes", "b/types") + "enum E { BZ = 0; BO = 1; }\n", "use/use.proto": H("use", "use") + "import \"@/a/types/t.proto\";\nimport \"@/b/types/t.proto\";\nmessage U { .c13.~.atypes.E a = 1 [(validate.rules).enum.defined_only = true]; .c13.~.btypes.E b = 2 [(validate.rules).enum.defined_only = true]; }\n"})
	for _, u := range sortedKeys(eachUse) { // an enum from another Go package of the user's own name
		cg.multi("same-name-enum-package:"+u, map[string]string{"a/types/t.proto": H("atypes", "a/types") + "enum E { AZ = 0; AO = 1; }\n", "b/types/use.proto": H("btypes", "b/types") + "import \"@/a/types/t.proto\";\nenum T { BZ = 0; BO = 1; }\nmessage U { " + strings.ReplaceAll(strings.ReplaceAll(eachUse[u], "T a", ".c13.~.atypes.E a"), "map<string, T>", "map<string, .c13.~.atypes.E>") + " T own = 9 [(validate.rules).enum.defined_only = true]; }\n"})
	}
	cg.multi("enum-from-two-files", map[string]string{"dep/a.proto": H("dep", "dep") + "enum E { AZ = 0; AO = 1; }\n", "dep/b.proto": H("dep", "dep") + "message D { enum E { BZ = 0; BO = 1; } }\n", "use/x.proto": H("use", "use") + "import \"@/dep/a.proto\";\nimport \"@/dep/b.proto\";\nmessage U { .c13.~.dep.E a = 1 [(validate.rules).enum.defined_only = true]; .c13.~.dep.D.E b = 2 [(validate.rules).enum.defined_only = true]; }\n", "use/y.proto": H("use", "use") + "import \"@/dep/b.proto\";\nimport \"@/use/x.proto\";\nmessage V { repeated .c13.~.dep.D.E b = 2 [(validate.rules).repeated.items.enum.in = 1]; message W { map<int32, .c13.~.dep.D.E> c = 1 [(validate.rules).map.values.enum.defined_only = true]; U u = 2; } }\n"})
	cg.multi("enum-package-named-like-import", map[string]string{"time/t.proto": H("timepkg", "time") + "enum E { AZ = 0; AO = 1; }\n", "use/use.proto": H("use", "use") + "import \"@/time/t.proto\";\nimport \"google/protobuf/duration.proto\";\nmessage U { .c13.~.timepkg.E a = 1 [(validate.rules).enum.defined_only = true]; google.protobuf.Duration d = 2 [(validate.rules).duration.gt.seconds = 1]; }\n"})
	cg.multi("enum-package-dash", map[string]string{"my-types/t.proto": H("mytypes", "my-types") + "enum E { AZ = 0; AO = 1; }\n", "use/use.proto": H("use", "use") + "import \"@/my-types/t.proto\";\nmessage U { .c13.~.mytypes.E a = 1 [(validate.rules).enum.defined_only = true]; }\n"})
	cg.multi("enum-package-alias", map[string]string{"ty/t.proto": strings.Replace(H("mytypes", "ty"), "/ty\"", "/ty;otherty\"", 1) + "enum E { AZ = 0; AO = 1; }\n", "use/use.proto": H("use", "use") + "import \"@/ty/t.proto\";\nmessage U { .c13.~.mytypes.E a = 1 [(validate.rules).enum.defined_only = true]; }\n"})
	cg.multi("two-files-same-package", map[string]string{"p/a.proto": H("p", "p") + "message A { string s = 1 [(validate.rules).string.uuid = true]; string h = 2 [(validate.rules).string.email = true]; }\n", "p/b.proto": H("p", "p") + "message B { string s = 1 [(validate.rules).string.uuid = true]; string h = 2 [(validate.rules).string.email = true]; }\n"})
	cg.multi("two-files-similar-names", map[string]string{"p/a.proto": H("p", "p") + "message A { string s = 1 [(validate.rules).string.uuid = true]; }\n", "p/a_b.proto": H("p", "p") + "message B { string s = 1 [(validate.rules).string.uuid = true]; }\n", "p/aB.proto": H("p", "p") + "message C { string s = 1 [(validate.rules).string.uuid = true]; }\n"})
	cg.multi("no-package", map[string]string{"np.proto": "syntax = \"proto3\";\noption go_package = \"vgen/@;np\";\nimport \"validate/validate.proto\";\nmessage NoPkg~ { int32 x = 1 [(validate.rules).int32.gt = 1]; NoPkg~ s = 2; enum NE { NP~_Z = 0; } NE e = 3 [(validate.rules).enum.defined_only = true]; }\n"})
	cg.multi("deep-package", map[string]string{"dp.proto": "syntax = \"proto3\";\npackage c13.~.a.b.c.d.e_f.v1alpha1;\noption go_package = \"vgen/@;dp\";\nimport \"validate/validate.proto\";\nmessage M { int32 x = 1 [(validate.rules).int32.gt = 1]; M s = 2; enum NE { Z = 0; } NE e = 3 [(validate.rules).enum.defined_only = true]; }\n"})
	for _, n := range []string{"~_v1", "v1beta~", "fooBar~", "HTTPFoo~", "_x~", "a_b~.c_d.v1", "~"} {
		cg.multi("package-name:"+n, map[string]string{"pn.proto": "syntax = \"proto3\";\npackage " + n + ";\noption go_package = \"vgen/@;pn\";\nimport \"validate/validate.proto\";\nmessage M { int32 x = 1 [(validate.rules).int32.gt = 1]; M s = 2; enum NE { Z = 0; } NE e = 3 [(validate.rules).enum.defined_only = true]; repeated NE r = 4 [(validate.rules).repeated = {unique: true, items: {enum: {in: [0]}}}]; oneof pick { string a_b = 5 [(validate.rules).string.in = \"a\"]; N n = 6 [(validate.rules).message.required = true]; } message N { map<string, N> m = 1 [(validate.rules).map.keys.string.uuid = true]; } }\n"})
	}
	for _, n := range []string{"with-dash", "with.dot", "UPPER", "mixedCase", "under_score", "1digit", "a1b2"} {
		cg.multi("file-name:"+n, map[string]string{n + ".proto": H("p", "p"+cg.pn()) + "message A { string s = 1 [(validate.rules).string.uuid = true]; int32 x = 2 [(validate.rules).int32 = {in: 1}]; message B { string s = 1 [(validate.rules).string.hostname = true]; } }\n"})
	}
}

func (cg *compGen) pn() string { return fmt.Sprint(cg.n) }

func manyFields(n int) string {
	var b strings.Builder
	for i := 1; i <= n; i++ {
		switch i % 4 {
		case 0:
			fmt.Fprintf(&b, "string f%d = %d [(validate.rules).string = {min_len: %d, pattern: \"x\"}]; ", i, i, i)
		case 1:
			fmt.Fprintf(&b, "int64 f%d = %d [(validate.rules).int64 = {in: [%d, 0]}]; ", i, i, i)
		case 2:
			fmt.Fprintf(&b, "repeated int32 f%d = %d [(validate.rules).repeated = {min_items: %d, unique: true}]; ", i, i, i)
		default:
			fmt.Fprintf(&b, "google.protobuf.Duration f%d = %d [(validate.rules).duration = {gt: {seconds: %d}}]; ", i, i, i)
		}
	}
	return b.String()
}

// compileAll generates and compiles every case; results land in the cases.
func (c *CheckCtx) compileAll(cases []*compCase) error {
	w := c.W
	src := filepath.Join(w.Dir, "src")
	owner := map[string]*compCase{} // proto path -> case
	var paths []string
	noPGV := map[string]bool{}
	for _, x := range cases {
		for _, f := range x.files {
			p := filepath.Join(src, f.path)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(f.text), 0o644); err != nil {
				return infra("%v", err)
			}
			if owner[f.path] != nil {
				return infra("duplicate %s", f.path)
			}
			owner[f.path] = x
			noPGV[f.path] = f.noPGV
			paths = append(paths, f.path)
		}
	}
	// protoc decides which schemas are legal
	legal := paths
	for try := 0; ; try++ {
		out := filepath.Join(w.Dir, "legal.fds")
		bad := map[*compCase]bool{}
		for i := 0; i < len(legal); i += 3000 {
			r, err := w.protoc(src, []string{"-o", out}, legal[i:min(len(legal), i+3000)])
			if err != nil {
				return err
			}
			for _, l := range strings.Split(r.err, "\n") {
				m := protoErrRe.FindStringSubmatch(l)
				if m != nil && owner[m[1]] != nil && !strings.Contains(l, "warning: ") {
					bad[owner[m[1]]] = true
				}
			}
			if r.code != 0 && len(bad) == 0 {
				return infra("protoc: %s", trunc(r.err, 2000))
			}
		}
		if len(bad) == 0 {
			break
		}
		if try > 5 {
			return infra("protoc keeps refusing schemas")
		}
		var keep []string
		for _, p := range legal {
			if !bad[owner[p]] {
				keep = append(keep, p)
			}
		}
		for x := range bad {
			x.langs = "illegal"
			w.log("protoc refuses %s", x.key)
			c.add("schemas_refused_by_protoc", 1)
		}
		legal = keep
	}
	fds, err := w.descriptors(src, legal, false)
	if err != nil {
		return err
	}
	type job struct {
		x    *compCase
		path string
		lang string
		res  *PluginRes
		pg   *PluginRes
	}
	var jobs []*job
	for _, p := range legal {
		jobs = append(jobs, &job{x: owner[p], path: p, lang: "pb"})
		if !noPGV[p] {
			jobs = append(jobs, &job{x: owner[p], path: p, lang: "go"}, &job{x: owner[p], path: p, lang: "cc"}, &job{x: owner[p], path: p, lang: "java"})
		}
	}
	if err := parallel(len(jobs), func(i int) error {
		j := jobs[i]
		var err error
		if j.lang == "pb" {
			j.res, err = w.pluginBin(w.PGGo, fds.request([]string{j.path}, "paths=source_relative"), nil)
		} else {
			p := "lang=" + j.lang
			if j.lang == "go" {
				p += ",paths=source_relative"
			}
			j.res, err = w.plugin(fds.request([]string{j.path}, p))
		}
		return err
	}); err != nil {
		return err
	}
	goDir, ccDir, jDir := filepath.Join(w.Dir, "go"), filepath.Join(w.Dir, "cc"), filepath.Join(w.Dir, "java")
	skipGo := map[*compCase]string{}
	for _, j := range jobs {
		if j.lang == "pb" && j.res.failed() {
			skipGo[j.x] = "protoc-gen-go refuses: " + trunc(j.res.text(), 100)
		}
	}
	goBuild := map[*compCase]bool{}
	ccBuild := map[*compCase]bool{}
	for _, j := range jobs {
		c.Evals++
		if j.lang == "pb" {
			if skipGo[j.x] == "" {
				for _, f := range j.res.Files {
					writeFile(filepath.Join(goDir, f.Name), f.Content)
				}
			}
			continue
		}
		c.nontrivial(j.lang, j.x.key, j.x.desc)
		if j.res.crashed() {
			c.compViol(j.x, j.lang+":crash:"+j.x.key, fmt.Sprintf("the generator crashes (lang=%s): %s", j.lang, crashHead(j.res.text())))
			continue
		}
		if j.res.failed() {
			if strings.Contains(j.res.text(), "group types are deprecated and unsupported") {
				c.add("refused_group", 1)
				continue
			}
			if j.lang == "cc" && strings.Contains(j.res.text(), "nimplemented") {
				c.add("cc_refused_unimplemented", 1)
				continue
			}
			// syntactically invalid Go is reported by the plugin's gofmt step
			c.compViol(j.x, j.lang+":generate:"+j.x.key, fmt.Sprintf("lang=%s fails on a schema protoc accepts: %s", j.lang, trunc(tail(j.res.text(), 400), 600)))
			continue
		}
		c.add("generated_"+j.lang, 1)
		switch j.lang {
		case "go":
			if skipGo[j.x] == "" {
				goBuild[j.x] = true
				for _, f := range j.res.Files {
					writeFile(filepath.Join(goDir, f.Name), f.Content)
				}
			}
		case "cc":
			ccBuild[j.x] = true
			for _, f := range j.res.Files {
				writeFile(filepath.Join(ccDir, f.Name), f.Content)
			}
		case "java":
			for _, f := range j.res.Files {
				writeFile(filepath.Join(jDir, f.Name), f.Content)
			}
		}
	}
	for _, x := range skipGo {
		_ = x
		c.add("schemas_refused_by_protoc_gen_go", 1)
	}
	var wg sync.WaitGroup
	var errGo, errCC error
	wg.Add(2)
	go func() { defer wg.Done(); errGo = c.compileGo(goDir, owner) }()
	go func() { defer wg.Done(); errCC = c.compileCC(src, ccDir, cases, legal, ccBuild, owner) }()
	wg.Wait()
	if errGo != nil {
		return errGo
	}
	return errCC
}

func crashHead(s string) string {
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
	}
	return trunc(s, 500)
}

func writeFile(p, text string) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, []byte(text), 0o644)
}

func (c *CheckCtx) compViol(x *compCase, key, d string) {
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	var texts []string
	for _, f := range x.files {
		texts = append(texts, "// "+f.path+"\n"+f.text)
	}
	c.violation(key, d, map[string]any{"shape": x.key, "schema": trunc(strings.Join(texts, "\n"), 6000)})
}

func (c *CheckCtx) compileGo(dir string, owner map[string]*compCase) error {
	if err := c.W.goModule(dir); err != nil {
		return err
	}
	r, err := c.W.run(dir, 12*time.Minute, nil, nil, "go", "build", "-gcflags=-e", "./...")
	if err != nil {
		return err
	}
	if r.timeout {
		return infra("go build timed out")
	}
	errs := map[string]string{}
	pbErr := map[string]bool{}
	for _, m := range goErrRe.FindAllStringSubmatch(r.err, -1) {
		p := strings.TrimPrefix(m[1], dir+"/")
		base := strings.TrimSuffix(p, ".pb.validate.go")
		if base == p {
			// protoc-gen-go's own output does not compile
			pbErr[filepath.Dir(p)] = true
			continue
		}
		base += ".proto"
		if _, ok := errs[base]; !ok {
			errs[base] = m[3]
		}
	}
	if r.code != 0 && len(errs)+len(pbErr) == 0 {
		return infra("go build: %s", tail(r.err, 2000))
	}
	// packages with errors in protoc-gen-go's file: is that file bad by itself?
	if len(pbErr) > 0 {
		args := []string{"build", "-gcflags=-e"}
		for _, d := range sortedKeys(pbErr) {
			args = append(args, "./"+d)
			l, _ := filepath.Glob(filepath.Join(dir, d, "*.pb.validate.go"))
			for _, f := range l {
				os.Remove(f)
			}
		}
		r, err := c.W.run(dir, 5*time.Minute, nil, nil, "go", args...)
		if err != nil || r.timeout {
			return infra("go build of %d packages: %v", len(pbErr), err)
		}
		alone := map[string]bool{}
		for _, m := range goErrRe.FindAllStringSubmatch(r.err, -1) {
			alone[filepath.Dir(strings.TrimPrefix(m[1], dir+"/"))] = true
		}
		if r.code != 0 && len(alone) == 0 {
			return infra("go build: %s", tail(r.err, 2000))
		}
		for _, d := range sortedKeys(pbErr) {
			if strings.HasPrefix(d, "c13/k") {
				return infra("the rule schemas of package %s do not compile: %s", d, tail(r.err, 1500))
			}
			if alone[d] {
				continue
			}
			delete(pbErr, d)
			for p, x := range owner {
				if filepath.Dir(p) == d {
					c.compViol(x, "go:compile:"+x.key, "the generated Go makes protoc-gen-go's file of the same schema invalid")
					delete(errs, p)
					break
				}
			}
		}
	}
	n := 0
	for _, p := range sortedKeys(errs) {
		x := owner[p]
		if x == nil {
			return infra("go build: error in unknown file %s: %s", p, errs[p])
		}
		if pbErr[filepath.Dir(p)] {
			c.add("schemas_protoc_gen_go_breaks", 1)
			continue
		}
		n++
		c.compViol(x, "go:compile:"+x.key, "generated Go does not compile: "+errs[p])
	}
	c.W.mu.Lock()
	c.add("go_files_with_errors", n)
	c.W.mu.Unlock()
	return nil
}

func (c *CheckCtx) compileCC(src, dir string, cases []*compCase, legal []string, build map[*compCase]bool, owner map[string]*compCase) error {
	// protoc's own C++ for every file
	for i := 0; i < len(legal); i += 2000 {
		r, err := c.W.protoc(src, []string{"--cpp_out=" + dir}, legal[i:min(len(legal), i+2000)])
		if err != nil {
			return err
		}
		if r.code != 0 {
			return infra("protoc --cpp_out: %s", tail(r.err, 1500))
		}
	}
	if r, err := c.W.protoc(c.W.Repo, []string{"--cpp_out=" + dir}, []string{"validate/validate.proto"}); err != nil || r.code != 0 {
		return infra("protoc validate.proto: %v %s", err, r.err)
	}
	// group files into translation units; files with the same simple includes are independent
	var units [][]string
	var cur []string
	for _, p := range legal {
		if !build[owner[p]] {
			continue
		}
		if _, err := os.Stat(filepath.Join(dir, strings.TrimSuffix(p, ".proto")+".pb.validate.cc")); err != nil {
			continue
		}
		cur = append(cur, p)
		if len(cur) == 40 {
			units = append(units, cur)
			cur = nil
		}
	}
	if len(cur) > 0 {
		units = append(units, cur)
	}
	// the headers every generated pair includes, compiled once
	pch := filepath.Join(dir, "pch.h")
	writeFile(pch, ccPCH)
	if r, err := c.W.run(dir, 5*time.Minute, nil, nil, "g++", "-std=c++14", "-w", "-x", "c++-header", pch, "-o", pch+".gch"); err != nil || r.code != 0 {
		return infra("precompiled header: %v %s", err, r.err)
	}
	outs := make([]string, len(units))
	err := parallel(len(units), func(i int) error {
		var b strings.Builder
		for k, p := range units[i] {
			// every file has a file-local constant of this name
			fmt.Fprintf(&b, "#undef _uuidPattern\n#define _uuidPattern _uuidPattern_%d\n#include \"%s.pb.validate.cc\"\n", k, strings.TrimSuffix(p, ".proto"))
		}
		tu := filepath.Join(dir, fmt.Sprintf("tu%d.cc", i))
		writeFile(tu, b.String())
		r, err := c.W.run(dir, 10*time.Minute, nil, nil, "g++", "-std=c++14", "-fsyntax-only", "-fmax-errors=0", "-w", "-include", pch, "-I"+dir, "-I"+c.W.Repo, tu)
		if err != nil {
			return err
		}
		if r.timeout {
			return infra("g++ timed out")
		}
		if r.code != 0 {
			outs[i] = r.err
		}
		return nil
	})
	if err != nil {
		return err
	}
	errs := map[string]string{}
	for i, o := range outs {
		if o == "" {
			continue
		}
		// each failing unit's files are compiled one by one
		r2 := make([]string, len(units[i]))
		err := parallel(len(units[i]), func(k int) error {
			p := units[i][k]
			if !strings.Contains(o, strings.TrimSuffix(p, ".proto")+".pb.validate") {
				return nil
			}
			f := filepath.Join(dir, strings.TrimSuffix(p, ".proto")+".pb.validate.cc")
			r, err := c.W.run(dir, 5*time.Minute, nil, nil, "g++", "-std=c++14", "-fsyntax-only", "-w", "-include", pch, "-I"+dir, "-I"+c.W.Repo, f)
			if err == nil && r.code != 0 {
				r2[k] = r.err
			}
			return err
		})
		if err != nil {
			return err
		}
		hit := false
		for k, e := range r2 {
			if e == "" {
				continue
			}
			hit = true
			p := units[i][k]
			msg := ""
			if m := regexp.MustCompile(`(?m)^(\S+):\d+:\d+: (?:fatal )?error: (.*)$`).FindStringSubmatch(e); m != nil {
				if strings.HasSuffix(m[1], ".pb.h") {
					c.add("schemas_protoc_cpp_breaks", 1)
					continue
				}
				msg = m[2]
			}
			errs[p] = msg
		}
		if !hit {
			// no file fails alone: the grouping itself is at fault
			c.add("cc_groups_split", 1)
		}
	}
	for _, p := range sortedKeys(errs) {
		x := owner[p]
		c.compViol(x, "cc:compile:"+x.key, "generated C++ does not compile: "+errs[p])
	}
	c.W.mu.Lock()
	c.add("cc_files_with_errors", len(errs))
	c.add("cc_translation_units", len(units))
	c.W.mu.Unlock()
	return nil
}

const ccPCH = `#include <limits>
#include <string>
#include <google/protobuf/port_def.inc>
#include <google/protobuf/port_undef.inc>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/arena.h>
#include <google/protobuf/arenastring.h>
#include <google/protobuf/generated_message_util.h>
#include <google/protobuf/metadata_lite.h>
#include <google/protobuf/generated_message_reflection.h>
#include <google/protobuf/generated_enum_reflection.h>
#include <google/protobuf/message.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/extension_set.h>
#include <google/protobuf/map.h>
#include <google/protobuf/map_entry.h>
#include <google/protobuf/map_field_inl.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/wrappers.pb.h>
#include <google/protobuf/duration.pb.h>
#include <google/protobuf/timestamp.pb.h>
#include <google/protobuf/any.pb.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/util/time_util.h>
#include <re2/re2.h>
`

func init() {
	checks["C13"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "one schema per shape: every rule at every field position with ordinary and extreme constants, awkward field, message, enum, oneof, file and package names, nesting, cross-file and cross-package references; generated for go, cc and java; the Go and C++ output is compiled against protoc's own output of the same file (schemas protoc, protoc-gen-go or protoc's C++ generator cannot handle themselves are set aside)"
		c.Assume = []string{"g++ 13 -std=c++14 and the installed Go toolchain as judges of validity"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		cg := &compGen{g: newGen(c.Seed*1000003 + 13)}
		cg.g.Rich = c.Rich
		cg.rules(c.Rich)
		cg.naming(c.Rich)
		c.Cov["schemas"] = len(cg.cases)
		sort.SliceStable(cg.cases, func(i, j int) bool { return false })
		if err := c.compileAll(cg.cases); err != nil {
			return err
		}
		for i := 0; i < len(cg.cases); i += 1 + len(cg.cases)/10 {
			c.sample(map[string]any{"shape": cg.cases[i].key, "schema": trunc(cg.cases[i].desc, 300)})
		}
		if n, _ := c.Cov["generated_go"].(int); n < len(cg.cases)/2 {
			return infra("vacuous run: %d of %d generated", n, len(cg.cases))
		}
		return nil
	}}
}
