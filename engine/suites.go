package main

// Systematically generated schemas ("suites"), one per concern.

import (
	"fmt"
	"math"
)

type Suite struct {
	Files []*File
}

type builder struct {
	s       *Suite
	name    string // suite/package stem
	syntax  string
	perMsg  int
	perFile int
	file    *File
	msg     *Msg
	nm      int
	nfInMsg int
	tgt     string
	g       *Gen
	setup   func(*File)
}

func newBuilder(s *Suite, name string, g *Gen) *builder {
	return &builder{s: s, name: name, syntax: "proto3", perMsg: 8, perFile: 40, g: g}
}

func (s *Suite) file(name, sub, syntax string) *File {
	f := &File{Path: fmt.Sprintf("v/%s/%s.proto", name, sub), Pkg: "v." + name, Syntax: syntax, GoPkg: "vgen/v/" + name + ";" + name}
	s.Files = append(s.Files, f)
	return f
}

func (b *builder) newFile() *File {
	b.file = b.s.file(b.name, fmt.Sprintf("%s_f%d", b.name, len(b.s.Files)), b.syntax)
	b.msg = nil
	if b.setup != nil {
		b.setup(b.file)
	}
	return b.file
}

func (b *builder) newMsg() *Msg {
	n := b.perFile
	if b.g.PerFile > 0 {
		n = b.g.PerFile
	}
	if b.file == nil || len(b.file.Msgs) >= n {
		b.newFile()
	}
	b.nm++
	b.msg = b.file.msg(fmt.Sprintf("M%d", b.nm))
	b.msg.Explicit = b.nm%5 == 3
	return b.msg
}

// m returns the message to add the next field to.
func (b *builder) m() *Msg {
	if b.msg == nil || len(b.msg.Fields) >= b.perMsg {
		b.newMsg()
	}
	return b.msg
}

func (b *builder) fname() string { return fmt.Sprintf("f_%d", len(b.m().Fields)+1) }

func (b *builder) add(l Label, t Type, r *Rules) *Field {
	m := b.m()
	return m.field(b.fname(), l, t, r)
}
func (b *builder) addMap(kk Kind, t Type, r *Rules) *Field {
	m := b.m()
	return m.mp(b.fname(), kk, t, r)
}

// ---- rule constructors ----

func numR(n *NumRules) *Rules { return &Rules{Typ: kindName[n.K], Num: n} }
func strR(s *StrRules) *Rules {
	if s.Bytes {
		return &Rules{Typ: "bytes", Str: s}
	}
	return &Rules{Typ: "string", Str: s}
}
func boolR(b *bool) *Rules       { return &Rules{Typ: "bool", BoolS: true, Bool: b} }
func enumR(e *EnumRules) *Rules  { return &Rules{Typ: "enum", Enum: e} }
func repR(r *RepRules) *Rules    { return &Rules{Typ: "repeated", Rep: r} }
func mapR(r *MapRules) *Rules    { return &Rules{Typ: "map", Map: r} }
func anyR(r *AnyRules) *Rules    { return &Rules{Typ: "any", Any: r} }
func durR(r *DurRules) *Rules    { return &Rules{Typ: "duration", Dur: r} }
func tsR(r *TsRules) *Rules      { return &Rules{Typ: "timestamp", Ts: r} }
func msgR(skip, req bool) *Rules { return &Rules{Msg: &MsgRules{Skip: skip, Required: req}} }
func (r *Rules) required() *Rules {
	c := *r
	c.Msg = &MsgRules{Required: true}
	return &c
}

// numProfile yields two ordered constants a<b plus list members.
type numProfile struct {
	a, b any
	list []any
	big  bool // with long lists too
}

// bigNums makes n different numbers, unsorted.
func bigNums(k Kind, n int) (out []any) {
	for i := 0; i < n; i++ {
		x := float64((i*37+11)%997) + 20
		switch zero(k).(type) {
		case float32, float64:
			x += float64(i%4) / 4
		}
		if _, un := zero(k).(uint32); !un && i%3 == 1 {
			if _, un := zero(k).(uint64); !un {
				x = -x
			}
		}
		if i%5 == 3 {
			x *= 1 << 20
		}
		out = append(out, numFrom(k, x))
	}
	return uniqAny(out)
}

func numFrom(k Kind, x float64) any {
	switch zero(k).(type) {
	case float32:
		return float32(x)
	case float64:
		return x
	case int32:
		return int32(x)
	case int64:
		return int64(x)
	case uint32:
		return uint32(x)
	}
	return uint64(x)
}

func numMinMax(k Kind) (any, any) {
	switch zero(k).(type) {
	case float32:
		return float32(-math.MaxFloat32), float32(math.MaxFloat32)
	case float64:
		return -math.MaxFloat64, math.MaxFloat64
	case int32:
		return int32(math.MinInt32), int32(math.MaxInt32)
	case int64:
		return int64(math.MinInt64), int64(math.MaxInt64)
	case uint32:
		return uint32(0), uint32(math.MaxUint32)
	}
	return uint64(0), uint64(math.MaxUint64)
}

func (g *Gen) numProfiles(k Kind, n int) (out []numProfile) {
	lo, hi := numMinMax(k)
	out = append(out, numProfile{numFrom(k, 5), numFrom(k, 10), []any{numFrom(k, 1), numFrom(k, 2), numFrom(k, 7)}, true})
	small := numProfile{numFrom(k, 0), numFrom(k, 3), []any{numFrom(k, 0), numFrom(k, 9)}, false}
	switch zero(k).(type) {
	case float32:
		small = numProfile{float32(-0.1), float32(1e-7), []any{float32(0.1), float32(1.5e10), float32(16777217)}, false}
	case float64:
		small = numProfile{-0.1, 1e-12, []any{0.1, 1e100, 4503599627370497.5}, false}
	case int32, int64:
		small = numProfile{numFrom(k, -7), numFrom(k, 3), []any{numFrom(k, -1), numFrom(k, 0)}, false}
	}
	out = append(out, small)
	out = append(out, numProfile{lo, hi, []any{lo, hi}, false})
	for len(out) < n {
		x, y := g.numRand(k), g.numRand(k)
		c := numCmp(x, y)
		if c == 0 || isNaN(x) || isNaN(y) {
			continue
		}
		if c > 0 {
			x, y = y, x
		}
		l := []any{g.numRand(k), g.numRand(k), x}
		out = append(out, numProfile{x, y, uniqAny(l), false})
	}
	return
}

func uniqAny(l []any) (out []any) {
	for _, x := range l {
		if !inNums(out, x) && !isNaN(x) {
			out = append(out, x)
		}
	}
	return
}

func numShapes(k Kind, p numProfile) (out []*NumRules) {
	r := func(f func(*NumRules)) {
		n := &NumRules{K: k}
		f(n)
		out = append(out, n)
	}
	r(func(n *NumRules) { n.Const = p.a })
	r(func(n *NumRules) { n.Lt = p.b })
	r(func(n *NumRules) { n.Lte = p.b })
	r(func(n *NumRules) { n.Gt = p.a })
	r(func(n *NumRules) { n.Gte = p.a })
	r(func(n *NumRules) { n.Gt, n.Lt = p.a, p.b })
	r(func(n *NumRules) { n.Gte, n.Lt = p.a, p.b })
	r(func(n *NumRules) { n.Gt, n.Lte = p.a, p.b })
	r(func(n *NumRules) { n.Gte, n.Lte = p.a, p.b })
	r(func(n *NumRules) { n.Gt, n.Lt = p.b, p.a })
	r(func(n *NumRules) { n.Gte, n.Lt = p.b, p.a })
	r(func(n *NumRules) { n.Gt, n.Lte = p.b, p.a })
	r(func(n *NumRules) { n.Gte, n.Lte = p.b, p.a })
	r(func(n *NumRules) { n.In = p.list })
	r(func(n *NumRules) { n.NotIn = p.list })
	r(func(n *NumRules) { n.NotIn = p.list[:1]; n.Gt = p.a; n.Lte = p.b })
	if p.big {
		for i, l := range bigLens {
			if i%2 == int(k)%2 {
				r(func(n *NumRules) { n.In = bigNums(k, l) })
			} else {
				r(func(n *NumRules) { n.NotIn = bigNums(k, l) })
			}
		}
	}
	return
}

func (n *NumRules) ie() *NumRules { c := *n; c.IgnoreEmpty = true; return &c }
func (n *NumRules) hasList() bool { return len(n.In)+len(n.NotIn) > 0 }

var mapKeyKinds = []Kind{KInt32, KInt64, KUint32, KUint64, KSint32, KSint64, KFixed32, KFixed64, KSfixed32, KSfixed64}

// numSuite covers numeric rules at every position.
func numSuite(g *Gen, name string, profiles int) *Suite {
	s := &Suite{}
	b := newBuilder(s, name, g)
	for _, k := range numKinds {
		b.newMsg()
		T := Type{K: k}
		for pi, p := range g.numProfiles(k, profiles) {
			shapes := numShapes(k, p)
			for _, r := range shapes {
				b.add(Single, T, numR(r))
			}
			for i, r := range shapes {
				if (i+pi)%2 == 0 || pi == 1 {
					b.add(Single, T, numR(r.ie()))
				}
			}
			if w := wWrap[k]; w != nil {
				for i, r := range shapes {
					x := numR(r)
					if i%3 == 1 {
						x = x.required()
					}
					if i%5 == 2 {
						x = numR(r.ie())
					}
					b.add(Single, Type{K: KMsg, Msg: w}, x)
				}
			}
			if g.NoNil && pi > 0 && g.Rich == 0 {
				continue // C++: compiling is what costs; constants matter, positions are covered by profile 0
			}
			for i, r := range shapes {
				rr := r
				if i%4 == 3 {
					rr = r.ie()
				}
				b.add(Repeated, T, repR(&RepRules{Items: numR(rr)}))
				if pi == 0 || i%2 == pi%2 {
					b.addMap([]Kind{KString, KInt32, KBool, KUint64}[i%4], T, mapR(&MapRules{Values: numR(rr)}))
				}
			}
			if k != KFloat && k != KDouble {
				for i, r := range shapes {
					if !r.hasList() && pi > 0 && i%2 == 0 {
						continue
					}
					b.addMap(k, Type{K: []Kind{KString, KInt32, KBytes}[i%3]}, mapR(&MapRules{Keys: numR(r)}))
				}
			}
			// oneof members
			m := b.newMsg()
			oo := m.oneof("choice", pi%2 == 0)
			for i, r := range shapes {
				if i%2 == pi%2 {
					if i%3 == 0 {
						r = r.ie()
					}
					m.field(fmt.Sprintf("f_%d", len(m.Fields)+1), Single, T, numR(r)).in(oo)
				}
			}
			b.msg = nil
		}
	}
	// proto2: explicit presence and defaults
	b2 := newBuilder(s, name+"p2", g)
	b2.syntax = "proto2"
	for _, k := range numKinds {
		p := g.numProfiles(k, 1)[0]
		for i, r := range numShapes(k, p) {
			f := b2.add([]Label{Optional, Optional, Required}[i%3], Type{K: k}, numR(r))
			if i%3 == 1 {
				f.Default, f.DefLit = p.b, numLit(p.b)
			}
		}
		b2.newMsg()
	}
	return s
}
