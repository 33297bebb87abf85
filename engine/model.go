package main

// The schema model. It is the single source from which .proto text, message
// values, wire bytes and expected verdicts are derived. It shares no code with
// the repository under test.

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type Kind int

const (
	KFloat Kind = iota
	KDouble
	KInt32
	KInt64
	KUint32
	KUint64
	KSint32
	KSint64
	KFixed32
	KFixed64
	KSfixed32
	KSfixed64
	KBool
	KString
	KBytes
	KEnum
	KMsg
)

var kindName = map[Kind]string{KFloat: "float", KDouble: "double", KInt32: "int32", KInt64: "int64", KUint32: "uint32", KUint64: "uint64", KSint32: "sint32", KSint64: "sint64", KFixed32: "fixed32", KFixed64: "fixed64", KSfixed32: "sfixed32", KSfixed64: "sfixed64", KBool: "bool", KString: "string", KBytes: "bytes"}

var numKinds = []Kind{KFloat, KDouble, KInt32, KInt64, KUint32, KUint64, KSint32, KSint64, KFixed32, KFixed64, KSfixed32, KSfixed64}

func (k Kind) isNum() bool { return k <= KSfixed64 }

type Label int

const (
	Single Label = iota
	Repeated
	Map
	Optional // proto2 optional
	Required // proto2 required
)

type EnumNum int32

type Enum struct {
	Name     string // simple
	Full     string // full proto name
	Vals     []EnumVal
	External *File // defining file when not in same file
	File     *File
	Alias    bool
}

type EnumVal struct {
	Name string
	N    int32
}

func (e *Enum) has(n int32) bool {
	for _, v := range e.Vals {
		if v.N == n {
			return true
		}
	}
	return false
}

type Type struct {
	K    Kind
	Msg  *Msg
	Enum *Enum
}

type Field struct {
	Name    string
	Num     int
	Label   Label
	T       Type
	KeyK    Kind // map
	Oneof   *Oneof
	Default any    // proto2
	DefLit  string // literal text of default
	R       *Rules
	M       *Msg
	GoName  string
	// value hints
	Hints []any
	Extra string // extra raw options text
}

type Oneof struct {
	Name     string
	Required bool
	M        *Msg
}

type Msg struct {
	Name     string
	Full     string
	GoName   string // Outer_Inner
	Parent   *Msg
	File     *File
	Fields   []*Field
	Oneofs   []*Oneof
	Nested   []*Msg
	Enums    []*Enum
	Disabled bool
	Ignored  bool
	Explicit bool // options that are off are written out
	WKT      string // e.g. "Duration": well-known message, not generated
	NoPGV    bool   // message from a file compiled without PGV
	GoLegacy bool   // NoPGV, but its Go package has a hand-written Validate (and no ValidateAll)
	Comment  string
	RawProto string // raw extra text within the message body
	Tags     map[string]bool
}

type File struct {
	Path    string // e.g. "num/a.proto"
	Pkg     string
	Syntax  string
	Msgs    []*Msg
	Enums   []*Enum
	Imports []string
	GoPkg   string // import path
	Opts    []string
	NoPGV   bool
	Comment string
	// Java options
	JavaPkg   *string
	JavaMulti bool
	JavaOuter string
}

func goCamel(s string) string {
	// protoc-gen-go's camel casing for lower_snake names
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b.WriteByte('X')
		case c == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z':
		case c >= '0' && c <= '9':
			b.WriteByte(c)
		default:
			if c >= 'a' && c <= 'z' {
				c -= 32
			}
			b.WriteByte(c)
			for ; i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z'; i++ {
				b.WriteByte(s[i+1])
			}
		}
	}
	return b.String()
}

func (f *File) msg(name string) *Msg {
	m := &Msg{Name: name, Full: f.Pkg + "." + name, GoName: goCamel(name), File: f}
	f.Msgs = append(f.Msgs, m)
	return m
}

func (m *Msg) nested(name string) *Msg {
	n := &Msg{Name: name, Full: m.Full + "." + name, GoName: m.GoName + "_" + goCamel(name), File: m.File, Parent: m, Explicit: m.Explicit}
	m.Nested = append(m.Nested, n)
	return n
}

func (f *File) enum(name string, vals ...EnumVal) *Enum {
	e := &Enum{Name: name, Full: f.Pkg + "." + name, Vals: vals, File: f}
	f.Enums = append(f.Enums, e)
	return e
}

func (m *Msg) enum(name string, vals ...EnumVal) *Enum {
	e := &Enum{Name: name, Full: m.Full + "." + name, Vals: vals, File: m.File}
	m.Enums = append(m.Enums, e)
	return e
}

func (m *Msg) oneof(name string, req bool) *Oneof {
	o := &Oneof{Name: name, Required: req, M: m}
	m.Oneofs = append(m.Oneofs, o)
	return o
}

func (m *Msg) field(name string, l Label, t Type, r *Rules) *Field {
	f := &Field{Name: name, Num: len(m.Fields) + 1, Label: l, T: t, R: r, M: m, GoName: goCamel(name)}
	if f.Num >= 19000 {
		panic("too many fields")
	}
	m.Fields = append(m.Fields, f)
	return f
}

func (m *Msg) f(name string, k Kind, r *Rules) *Field { return m.field(name, Single, Type{K: k}, r) }
func (m *Msg) fm(name string, t *Msg, r *Rules) *Field {
	return m.field(name, Single, Type{K: KMsg, Msg: t}, r)
}
func (m *Msg) fe(name string, t *Enum, r *Rules) *Field {
	return m.field(name, Single, Type{K: KEnum, Enum: t}, r)
}
func (m *Msg) rep(name string, t Type, r *Rules) *Field { return m.field(name, Repeated, t, r) }
func (m *Msg) mp(name string, kk Kind, t Type, r *Rules) *Field {
	f := m.field(name, Map, t, r)
	f.KeyK = kk
	return f
}
func (f *Field) in(o *Oneof) *Field     { f.Oneof = o; return f }
func (f *Field) hints(vs ...any) *Field { f.Hints = append(f.Hints, vs...); return f }
func (m *Msg) all(visit func(*Msg)) {
	visit(m)
	for _, n := range m.Nested {
		n.all(visit)
	}
}
func (f *File) allMsgs() (out []*Msg) {
	for _, m := range f.Msgs {
		m.all(func(x *Msg) { out = append(out, x) })
	}
	return
}

// ---- well-known messages ----

func wkt(name string, fields ...*Field) *Msg {
	m := &Msg{Name: name, Full: "google.protobuf." + name, GoName: name, WKT: name, NoPGV: true}
	for i, f := range fields {
		if f.Num == 0 {
			f.Num = i + 1
		}
		f.M = m
		m.Fields = append(m.Fields, f)
	}
	return m
}

var (
	wDuration  = wkt("Duration", &Field{Name: "seconds", T: Type{K: KInt64}}, &Field{Name: "nanos", T: Type{K: KInt32}})
	wTimestamp = wkt("Timestamp", &Field{Name: "seconds", T: Type{K: KInt64}}, &Field{Name: "nanos", T: Type{K: KInt32}})
	wAny       = wkt("Any", &Field{Name: "type_url", T: Type{K: KString}}, &Field{Name: "value", T: Type{K: KBytes}})
	wEmpty     = wkt("Empty")
	wWrap      = map[Kind]*Msg{
		KFloat: wkt("FloatValue", &Field{Name: "value", T: Type{K: KFloat}}), KDouble: wkt("DoubleValue", &Field{Name: "value", T: Type{K: KDouble}}),
		KInt32: wkt("Int32Value", &Field{Name: "value", T: Type{K: KInt32}}), KInt64: wkt("Int64Value", &Field{Name: "value", T: Type{K: KInt64}}),
		KUint32: wkt("UInt32Value", &Field{Name: "value", T: Type{K: KUint32}}), KUint64: wkt("UInt64Value", &Field{Name: "value", T: Type{K: KUint64}}),
		KBool: wkt("BoolValue", &Field{Name: "value", T: Type{K: KBool}}), KString: wkt("StringValue", &Field{Name: "value", T: Type{K: KString}}),
		KBytes: wkt("BytesValue", &Field{Name: "value", T: Type{K: KBytes}}),
	}
)

var wktImport = map[string]string{"Duration": "duration", "Timestamp": "timestamp", "Any": "any", "Empty": "empty"}

func (m *Msg) importPath() string {
	if m.WKT == "" {
		return m.File.Path
	}
	if p, ok := wktImport[m.WKT]; ok {
		return "google/protobuf/" + p + ".proto"
	}
	return "google/protobuf/wrappers.proto"
}

func isWrapper(m *Msg) bool { return m != nil && strings.HasSuffix(m.WKT, "Value") }

// ---- rules ----

type Rules struct {
	Msg   *MsgRules
	Typ   string // oneof member name; "" for none
	Num   *NumRules
	Bool  *bool
	BoolS bool // bool rules present
	Str   *StrRules
	Enum  *EnumRules
	Rep   *RepRules
	Map   *MapRules
	Any   *AnyRules
	Dur   *DurRules
	Ts    *TsRules
	Raw   string // raw text form; no oracle
}

type MsgRules struct{ Skip, Required bool }

type NumRules struct {
	K                       Kind
	Const, Lt, Lte, Gt, Gte any
	In, NotIn               []any
	IgnoreEmpty             bool
}

// StrRules serves both strings and bytes (Bytes=true).
type StrRules struct {
	Bytes                                             bool
	Const                                             *string
	Len, MinLen, MaxLen, LenBytes, MinBytes, MaxBytes *uint64
	Pattern, Prefix, Suffix, Contains, NotContains    *string
	In, NotIn                                         []string
	WK                                                string // email hostname ip ipv4 ipv6 uri uri_ref address uuid
	Regex                                             string // HTTP_HEADER_NAME...
	Strict                                            *bool
	IgnoreEmpty                                       bool
}

type EnumRules struct {
	Const       *int32
	DefinedOnly bool
	In, NotIn   []int32
}
type RepRules struct {
	Min, Max            *uint64
	Unique, IgnoreEmpty bool
	Items               *Rules
}
type MapRules struct {
	Min, Max              *uint64
	NoSparse, IgnoreEmpty bool
	Keys, Values          *Rules
}
type AnyRules struct {
	Required  bool
	In, NotIn []string
}

// SN is seconds + nanos.
type SN struct {
	S int64
	N int32
}
type DurRules struct {
	Required                bool
	Const, Lt, Lte, Gt, Gte *SN
	In, NotIn               []SN
}
type TsRules struct {
	Required                bool
	Const, Lt, Lte, Gt, Gte *SN
	LtNow, GtNow            bool
	Within                  *SN
}

// ---- rule text ----

func protoStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 0x20 && c < 0x7f && c != '"' && c != '\\' && c != '?' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\%03o", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func numLit(v any) string {
	switch x := v.(type) {
	case float32:
		return floatLit(float64(x), 32)
	case float64:
		return floatLit(x, 64)
	}
	return fmt.Sprint(v)
}

func floatLit(f float64, bits int) string {
	switch {
	case math.IsInf(f, 1):
		return "inf"
	case math.IsInf(f, -1):
		return "-inf"
	case math.IsNaN(f):
		return "nan"
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

type textB struct {
	parts []string
	expl  bool // write out booleans that are false
}

func (t *textB) add(k, v string) { t.parts = append(t.parts, k+": "+v) }
func (t *textB) sub(k, v string) { t.parts = append(t.parts, k+": {"+v+"}") }
func (t *textB) u(k string, p *uint64) {
	if p != nil {
		t.add(k, fmt.Sprint(*p))
	}
}
func (t *textB) s(k string, p *string) {
	if p != nil {
		t.add(k, protoStr(*p))
	}
}
func (t *textB) b(k string, v bool) {
	if v {
		t.add(k, "true")
	} else if t.expl {
		t.add(k, "false")
	}
}
func (t *textB) sn(k string, p *SN) {
	if p != nil {
		t.sub(k, p.text())
	}
}
func (t *textB) String() string { return strings.Join(t.parts, ", ") }
func (s SN) text() string {
	var t textB
	if s.S != 0 {
		t.add("seconds", fmt.Sprint(s.S))
	}
	if s.N != 0 {
		t.add("nanos", fmt.Sprint(s.N))
	}
	return t.String()
}

func (r *Rules) text() string { return r.textE(false) }

func (r *Rules) textE(expl bool) string {
	if r.Raw != "" {
		return r.Raw
	}
	t := textB{expl: expl}
	if r.Msg != nil {
		m := textB{expl: expl}
		m.b("skip", r.Msg.Skip)
		m.b("required", r.Msg.Required)
		t.sub("message", m.String())
	}
	x := textB{expl: expl}
	switch {
	case r.Num != nil:
		n := r.Num
		for _, p := range []struct {
			k string
			v any
		}{{"const", n.Const}, {"lt", n.Lt}, {"lte", n.Lte}, {"gt", n.Gt}, {"gte", n.Gte}} {
			if p.v != nil {
				x.add(p.k, numLit(p.v))
			}
		}
		for _, v := range n.In {
			x.add("in", numLit(v))
		}
		for _, v := range n.NotIn {
			x.add("not_in", numLit(v))
		}
		x.b("ignore_empty", n.IgnoreEmpty)
	case r.BoolS:
		if r.Bool != nil {
			x.add("const", fmt.Sprint(*r.Bool))
		}
	case r.Str != nil:
		s := r.Str
		x.s("const", s.Const)
		x.u("len", s.Len)
		x.u("min_len", s.MinLen)
		x.u("max_len", s.MaxLen)
		x.u("len_bytes", s.LenBytes)
		x.u("min_bytes", s.MinBytes)
		x.u("max_bytes", s.MaxBytes)
		x.s("pattern", s.Pattern)
		x.s("prefix", s.Prefix)
		x.s("suffix", s.Suffix)
		x.s("contains", s.Contains)
		x.s("not_contains", s.NotContains)
		for _, v := range s.In {
			x.add("in", protoStr(v))
		}
		for _, v := range s.NotIn {
			x.add("not_in", protoStr(v))
		}
		if s.WK != "" {
			x.add(s.WK, "true")
		}
		if s.Regex != "" {
			x.add("well_known_regex", s.Regex)
		}
		if s.Strict != nil {
			x.add("strict", fmt.Sprint(*s.Strict))
		}
		x.b("ignore_empty", s.IgnoreEmpty)
	case r.Enum != nil:
		e := r.Enum
		if e.Const != nil {
			x.add("const", fmt.Sprint(*e.Const))
		}
		x.b("defined_only", e.DefinedOnly)
		for _, v := range e.In {
			x.add("in", fmt.Sprint(v))
		}
		for _, v := range e.NotIn {
			x.add("not_in", fmt.Sprint(v))
		}
	case r.Rep != nil:
		x.u("min_items", r.Rep.Min)
		x.u("max_items", r.Rep.Max)
		x.b("unique", r.Rep.Unique)
		if r.Rep.Items != nil {
			x.sub("items", r.Rep.Items.textE(expl))
		}
		x.b("ignore_empty", r.Rep.IgnoreEmpty)
	case r.Map != nil:
		x.u("min_pairs", r.Map.Min)
		x.u("max_pairs", r.Map.Max)
		x.b("no_sparse", r.Map.NoSparse)
		if r.Map.Keys != nil {
			x.sub("keys", r.Map.Keys.textE(expl))
		}
		if r.Map.Values != nil {
			x.sub("values", r.Map.Values.textE(expl))
		}
		x.b("ignore_empty", r.Map.IgnoreEmpty)
	case r.Any != nil:
		x.b("required", r.Any.Required)
		for _, v := range r.Any.In {
			x.add("in", protoStr(v))
		}
		for _, v := range r.Any.NotIn {
			x.add("not_in", protoStr(v))
		}
	case r.Dur != nil:
		d := r.Dur
		x.b("required", d.Required)
		x.sn("const", d.Const)
		x.sn("lt", d.Lt)
		x.sn("lte", d.Lte)
		x.sn("gt", d.Gt)
		x.sn("gte", d.Gte)
		for i := range d.In {
			x.sn("in", &d.In[i])
		}
		for i := range d.NotIn {
			x.sn("not_in", &d.NotIn[i])
		}
	case r.Ts != nil:
		d := r.Ts
		x.b("required", d.Required)
		x.sn("const", d.Const)
		x.sn("lt", d.Lt)
		x.sn("lte", d.Lte)
		x.sn("gt", d.Gt)
		x.sn("gte", d.Gte)
		x.b("lt_now", d.LtNow)
		x.b("gt_now", d.GtNow)
		x.sn("within", d.Within)
	}
	if r.Typ != "" {
		t.sub(r.Typ, x.String())
	}
	return t.String()
}

// ---- proto text ----

func (t Type) protoName() string {
	switch t.K {
	case KMsg:
		return "." + t.Msg.Full
	case KEnum:
		return "." + t.Enum.Full
	}
	return kindName[t.K]
}

func (f *File) imports() []string {
	set := map[string]bool{}
	for _, i := range f.Imports {
		set[i] = true
	}
	f.NoPGV = f.NoPGV || false
	if !f.NoPGV {
		set["validate/validate.proto"] = true
	}
	for _, m := range f.allMsgs() {
		for _, fl := range m.Fields {
			if fl.T.K == KMsg && fl.T.Msg.importPath() != f.Path {
				set[fl.T.Msg.importPath()] = true
			}
			if fl.T.K == KEnum && fl.T.Enum.File != f {
				set[fl.T.Enum.File.Path] = true
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (f *File) proto() string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = %q;\n", f.Syntax)
	if f.Pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", f.Pkg)
	}
	if f.GoPkg != "" {
		fmt.Fprintf(&b, "option go_package = %q;\n", f.GoPkg)
	}
	for _, o := range f.Opts {
		fmt.Fprintf(&b, "option %s;\n", o)
	}
	if f.JavaPkg != nil {
		fmt.Fprintf(&b, "option java_package = %q;\n", *f.JavaPkg)
	}
	if f.JavaMulti {
		b.WriteString("option java_multiple_files = true;\n")
	}
	if f.JavaOuter != "" {
		fmt.Fprintf(&b, "option java_outer_classname = %q;\n", f.JavaOuter)
	}
	for _, i := range f.imports() {
		fmt.Fprintf(&b, "import %q;\n", i)
	}
	if f.Comment != "" {
		fmt.Fprintf(&b, "// %s\n", f.Comment)
	}
	for _, e := range f.Enums {
		e.proto(&b, "")
	}
	for _, m := range f.Msgs {
		m.proto(&b, "")
	}
	return b.String()
}

func (e *Enum) proto(b *strings.Builder, ind string) {
	fmt.Fprintf(b, "%senum %s {\n", ind, e.Name)
	if e.Alias {
		fmt.Fprintf(b, "%s  option allow_alias = true;\n", ind)
	}
	for _, v := range e.Vals {
		fmt.Fprintf(b, "%s  %s = %d;\n", ind, v.Name, v.N)
	}
	fmt.Fprintf(b, "%s}\n", ind)
}

func (m *Msg) proto(b *strings.Builder, ind string) {
	if m.Comment != "" {
		fmt.Fprintf(b, "%s// %s\n", ind, m.Comment)
	}
	fmt.Fprintf(b, "%smessage %s {\n", ind, m.Name)
	in := ind + "  "
	if m.Disabled || m.Explicit {
		fmt.Fprintf(b, "%soption (validate.disabled) = %v;\n", in, m.Disabled)
	}
	if m.Ignored || m.Explicit {
		fmt.Fprintf(b, "%soption (validate.ignored) = %v;\n", in, m.Ignored)
	}
	for _, e := range m.Enums {
		e.proto(b, in)
	}
	for _, n := range m.Nested {
		n.proto(b, in)
	}
	if m.RawProto != "" {
		fmt.Fprintf(b, "%s%s\n", in, m.RawProto)
	}
	done := map[*Oneof]bool{}
	for _, f := range m.Fields {
		if f.Oneof == nil {
			f.proto(b, in)
			continue
		}
		if done[f.Oneof] {
			continue
		}
		done[f.Oneof] = true
		fmt.Fprintf(b, "%soneof %s {\n", in, f.Oneof.Name)
		if f.Oneof.Required || m.Explicit {
			fmt.Fprintf(b, "%s  option (validate.required) = %v;\n", in, f.Oneof.Required)
		}
		for _, g := range m.Fields {
			if g.Oneof == f.Oneof {
				g.proto(b, in+"  ")
			}
		}
		fmt.Fprintf(b, "%s}\n", in)
	}
	fmt.Fprintf(b, "%s}\n", ind)
}

func (f *Field) proto(b *strings.Builder, ind string) {
	lab := ""
	switch f.Label {
	case Repeated:
		lab = "repeated "
	case Optional:
		lab = "optional "
	case Required:
		lab = "required "
	}
	tn := f.T.protoName()
	if f.Label == Map {
		tn = fmt.Sprintf("map<%s, %s>", kindName[f.KeyK], tn)
	}
	var opts []string
	if f.DefLit != "" {
		opts = append(opts, "default = "+f.DefLit)
	}
	if f.R != nil && !f.M.NoPGV {
		opts = append(opts, fmt.Sprintf("(validate.rules) = {%s}", f.R.textE(f.M.Explicit)))
	}
	if f.Extra != "" {
		opts = append(opts, f.Extra)
	}
	o := ""
	if len(opts) > 0 {
		o = " [" + strings.Join(opts, ", ") + "]"
	}
	fmt.Fprintf(b, "%s%s%s %s = %d%s;\n", ind, lab, tn, f.Name, f.Num, o)
}

// ---- values ----

type MVal struct {
	M   *Msg
	F   map[*Field]any
	Nil bool // typed-nil stand-in: encoded as an empty message, nil-ed by the driver
}

type MapEnt struct{ K, V any }

func newVal(m *Msg) *MVal { return &MVal{M: m, F: map[*Field]any{}} }

func (v *MVal) set(name string, x any) *MVal {
	for _, f := range v.M.Fields {
		if f.Name == name {
			v.F[f] = x
			return v
		}
	}
	panic("no field " + name + " in " + v.M.Full)
}

func wrapVal(k Kind, x any) *MVal { return newVal(wWrap[k]).set("value", x) }
func snVal(m *Msg, s SN) *MVal    { return newVal(m).set("seconds", s.S).set("nanos", s.N) }

func zero(k Kind) any {
	switch k {
	case KFloat:
		return float32(0)
	case KDouble:
		return float64(0)
	case KInt32, KSint32, KSfixed32:
		return int32(0)
	case KInt64, KSint64, KSfixed64:
		return int64(0)
	case KUint32, KFixed32:
		return uint32(0)
	case KUint64, KFixed64:
		return uint64(0)
	case KBool:
		return false
	case KString:
		return ""
	case KBytes:
		return []byte(nil)
	case KEnum:
		return EnumNum(0)
	}
	panic("zero")
}

// get returns the value a getter returns for a singular scalar field.
func (v *MVal) get(f *Field) any {
	if x, ok := v.F[f]; ok {
		return x
	}
	if f.Label == Repeated || f.Label == Map || f.T.K == KMsg {
		return nil
	}
	if f.Default != nil {
		return f.Default
	}
	if f.T.K == KEnum && f.M.File != nil && f.M.File.Syntax == "proto2" {
		return EnumNum(f.T.Enum.Vals[0].N)
	}
	return zero(f.T.K)
}

func (v *MVal) getSub(f *Field) *MVal {
	if x, ok := v.F[f]; ok && x != nil {
		mv := x.(*MVal)
		if mv.Nil {
			return nil
		}
		return mv
	}
	return nil
}

// NilOp tells a Go driver to nil out a pointer after decoding.
type NilOp struct {
	Path string `json:"p"` // e.g. "Field", "Field#2", "Field@key" joined with "/"
}

func appendVarint(b []byte, x uint64) []byte { return binary.AppendUvarint(b, x) }
func zz(x int64) uint64                      { return uint64(x<<1) ^ uint64(x>>63) }

func wireType(k Kind) uint64 {
	switch k {
	case KDouble, KFixed64, KSfixed64:
		return 1
	case KFloat, KFixed32, KSfixed32:
		return 5
	case KString, KBytes, KMsg:
		return 2
	}
	return 0
}

func encScalar(b []byte, k Kind, v any) []byte {
	switch k {
	case KFloat:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(v.(float32)))
	case KDouble:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.(float64)))
	case KInt32:
		return appendVarint(b, uint64(int64(v.(int32))))
	case KInt64:
		return appendVarint(b, uint64(v.(int64)))
	case KUint32:
		return appendVarint(b, uint64(v.(uint32)))
	case KUint64:
		return appendVarint(b, v.(uint64))
	case KSint32:
		return appendVarint(b, zz(int64(v.(int32))))
	case KSint64:
		return appendVarint(b, zz(v.(int64)))
	case KFixed32:
		return binary.LittleEndian.AppendUint32(b, v.(uint32))
	case KFixed64:
		return binary.LittleEndian.AppendUint64(b, v.(uint64))
	case KSfixed32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.(int32)))
	case KSfixed64:
		return binary.LittleEndian.AppendUint64(b, uint64(v.(int64)))
	case KBool:
		if v.(bool) {
			return append(b, 1)
		}
		return append(b, 0)
	case KString:
		s := v.(string)
		return append(appendVarint(b, uint64(len(s))), s...)
	case KBytes:
		s := v.([]byte)
		return append(appendVarint(b, uint64(len(s))), s...)
	case KEnum:
		return appendVarint(b, uint64(int64(v.(EnumNum))))
	case KMsg:
		s := v.(*MVal).encode()
		return append(appendVarint(b, uint64(len(s))), s...)
	}
	panic("encScalar")
}

func encField(b []byte, num int, k Kind, v any) []byte {
	b = appendVarint(b, uint64(num)<<3|wireType(k))
	return encScalar(b, k, v)
}

func (v *MVal) encode() []byte {
	var b []byte
	for _, f := range v.M.Fields {
		x, ok := v.F[f]
		if !ok || x == nil {
			continue
		}
		switch f.Label {
		case Repeated:
			for _, e := range x.([]any) {
				b = encField(b, f.Num, f.T.K, e)
			}
		case Map:
			for _, e := range x.([]MapEnt) {
				var kb []byte
				kb = encField(kb, 1, f.KeyK, e.K)
				kb = encField(kb, 2, f.T.K, e.V)
				b = appendVarint(b, uint64(f.Num)<<3|2)
				b = append(appendVarint(b, uint64(len(kb))), kb...)
			}
		default:
			b = encField(b, f.Num, f.T.K, x)
		}
	}
	return b
}

// nils lists the paths of typed-nil elements.
func (v *MVal) nils(prefix string, out *[]string) {
	for _, f := range v.M.Fields {
		x, ok := v.F[f]
		if !ok || x == nil || f.T.K != KMsg {
			continue
		}
		sub := func(p string, e any) {
			mv := e.(*MVal)
			if mv.Nil {
				*out = append(*out, p)
			} else {
				mv.nils(p+"/", out)
			}
		}
		switch f.Label {
		case Repeated:
			for i, e := range x.([]any) {
				sub(fmt.Sprintf("%s%s#%d", prefix, f.GoName, i), e)
			}
		case Map:
			for _, e := range x.([]MapEnt) {
				sub(fmt.Sprintf("%s%s@%v", prefix, f.GoName, e.K), e.V)
			}
		default:
			sub(prefix+f.GoName, x)
		}
	}
}

func (v *MVal) String() string {
	if v == nil {
		return "<nil>"
	}
	if v.Nil {
		return "typed-nil"
	}
	var p []string
	for _, f := range v.M.Fields {
		if x, ok := v.F[f]; ok {
			p = append(p, f.Name+":"+showVal(x))
		}
	}
	return "{" + strings.Join(p, " ") + "}"
}

func showVal(x any) string {
	switch y := x.(type) {
	case string:
		if len(y) > 300 {
			return fmt.Sprintf("%q…(%d bytes)", y[:300], len(y))
		}
		return strconv.QuoteToASCII(y)
	case []byte:
		if len(y) > 300 {
			return fmt.Sprintf("0x%x…(%d bytes)", y[:300], len(y))
		}
		return fmt.Sprintf("0x%x", y)
	case []any:
		var p []string
		for _, e := range y {
			p = append(p, showVal(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case []MapEnt:
		var p []string
		for _, e := range y {
			p = append(p, showVal(e.K)+"=>"+showVal(e.V))
		}
		return "map[" + strings.Join(p, ",") + "]"
	}
	return fmt.Sprint(x)
}

// clone makes a shallow copy of the top level.
func (v *MVal) clone() *MVal {
	c := newVal(v.M)
	for k, x := range v.F {
		c.F[k] = x
	}
	return c
}

func ptr[T any](x T) *T { return &x }

func isASCIILower(s string) bool {
	for _, r := range s {
		if r > unicode.MaxASCII {
			return false
		}
	}
	return true
}
