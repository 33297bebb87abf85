package main

import "fmt"

func u64(n int) *uint64 { return ptr(uint64(n)) }

// shared helper types of the container/message/WKT suites
type common struct {
	leaf, strLeaf, plain, dis, ign, multi, imp, noPGV, legacy, node *Msg
	en, enNeg, enImp                                                *Enum
}

// commonTypes declares leaf messages in the suite's own package, in another
// generated package and in a package compiled without the plugin.
func commonTypes(s *Suite, name string, syntax string) *common {
	c := &common{}
	other := &File{Path: fmt.Sprintf("v/%simp/%simp.proto", name, name), Pkg: "v." + name + "imp", Syntax: syntax, GoPkg: "vgen/v/" + name + "imp;" + name + "imp"}
	s.Files = append(s.Files, other)
	lab := Single
	if syntax == "proto2" {
		lab = Optional
	}
	c.imp = other.msg("Imported")
	c.imp.field("amount", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(10)}))
	c.enImp = other.enum("Far", EnumVal{"FAR_ZERO", 0}, EnumVal{"FAR_TWO", 2}, EnumVal{"FAR_NINE", 9})
	raw := &File{Path: fmt.Sprintf("v/%sraw/%sraw.proto", name, name), Pkg: "v." + name + "raw", Syntax: syntax, GoPkg: "vgen/v/" + name + "raw;" + name + "raw", NoPGV: true}
	s.Files = append(s.Files, raw)
	c.noPGV = raw.msg("Raw")
	c.noPGV.NoPGV = true
	c.noPGV.field("x", lab, Type{K: KString}, nil)
	c.legacy = raw.msg("Legacy")
	c.legacy.NoPGV, c.legacy.GoLegacy = true, true
	c.legacy.field("amount", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(10)}))

	f := s.file(name, name+"_common", syntax)
	c.leaf = f.msg("Leaf")
	c.leaf.field("val", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gte: int32(3), Lt: int32(8)}))
	c.strLeaf = f.msg("StrLeaf")
	c.strLeaf.field("name", lab, Type{K: KString}, strR(&StrRules{MinLen: u64(1), MaxLen: u64(4)}))
	c.strLeaf.field("tag", lab, Type{K: KString}, strR(&StrRules{NotIn: []string{"bad"}}))
	c.plain = f.msg("Plain")
	c.plain.field("val", lab, Type{K: KInt32}, nil)
	c.dis = f.msg("Dis")
	c.dis.Disabled = true
	c.dis.field("val", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Const: int32(77)}))
	c.ign = f.msg("Ign")
	c.ign.Ignored = true
	c.ign.field("val", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Const: int32(77)}))
	c.multi = f.msg("Multi")
	c.multi.fieldL(lab, "a", Type{K: KUint32}, numR(&NumRules{K: KUint32, Lt: uint32(5)}))
	c.multi.fieldL(lab, "b", Type{K: KMsg, Msg: c.leaf}, msgR(false, true))
	c.multi.rep("c", Type{K: KMsg, Msg: c.strLeaf}, nil)
	c.node = f.msg("Node")
	c.node.fieldL(lab, "v", Type{K: KSint32}, numR(&NumRules{K: KSint32, Gte: int32(0)}))
	c.node.fieldL(lab, "next", Type{K: KMsg, Msg: c.node}, nil)
	c.node.rep("kids", Type{K: KMsg, Msg: c.node}, nil)
	c.node.mp("by_name", KString, Type{K: KMsg, Msg: c.node}, nil)
	o := c.node.oneof("alt", false)
	c.node.fm("alt_node", c.node, nil).in(o)
	c.node.f("alt_num", KInt32, numR(&NumRules{K: KInt32, Const: int32(4)})).in(o)
	c.node.Tags = map[string]bool{"nocase": true}
	c.en = f.enum("Color", EnumVal{"RED", 0}, EnumVal{"GREEN", 1}, EnumVal{"BLUE", 4})
	c.enNeg = f.enum("Neg", EnumVal{"N_ZERO", 0}, EnumVal{"N_MINUS", -5}, EnumVal{"N_BIG", 2147483647}, EnumVal{"N_ALIAS", -5})
	c.enNeg.Alias = true
	return c
}

func (m *Msg) fieldL(l Label, name string, t Type, r *Rules) *Field { return m.field(name, l, t, r) }

// contSuite covers repeated and map rules.
func contSuite(g *Gen, name string) *Suite {
	s := &Suite{}
	c := commonTypes(s, name, "proto3")
	b := newBuilder(s, name, g)
	b.perMsg = 5
	type elem struct {
		t     Type
		items []*Rules
	}
	var els []elem
	for _, k := range numKinds {
		els = append(els, elem{Type{K: k}, []*Rules{nil, numR(&NumRules{K: k, Gte: numFrom(k, 3), Lt: numFrom(k, 9)}), numR(&NumRules{K: k, Const: numFrom(k, 6)}), numR(&NumRules{K: k, Gt: numFrom(k, 8), Lt: numFrom(k, 2), IgnoreEmpty: true}), numR(&NumRules{K: k, In: []any{numFrom(k, 3), numFrom(k, 0), numFrom(k, 9)}}), numR(&NumRules{K: k, NotIn: []any{numFrom(k, 3), numFrom(k, 6)}})}})
	}
	els = append(els,
		elem{Type{K: KBool}, []*Rules{nil, boolR(ptr(true)), boolR(ptr(false))}},
		elem{Type{K: KString}, []*Rules{nil, strR(&StrRules{MinLen: u64(1), MaxLen: u64(4)}), strR(&StrRules{In: []string{"foo", "b\"r", ""}}), strR(&StrRules{NotIn: []string{"foo", "bär"}, IgnoreEmpty: true}), strR(&StrRules{Pattern: ptr(`^[a-z]*$`)}), strR(&StrRules{WK: "uuid"}), strR(&StrRules{WK: "hostname"})}},
		elem{Type{K: KBytes}, []*Rules{nil, strR(&StrRules{Bytes: true, In: []string{"\x00a", "", "zz"}}), strR(&StrRules{Bytes: true, NotIn: []string{"", "\xff\"\\"}}), strR(&StrRules{Bytes: true, MinLen: u64(1), MaxLen: u64(4)}), strR(&StrRules{Bytes: true, WK: "ipv4"}), strR(&StrRules{Bytes: true, Prefix: ptr("\x00a")})}},
		elem{Type{K: KEnum, Enum: c.en}, []*Rules{nil, enumR(&EnumRules{DefinedOnly: true}), enumR(&EnumRules{In: []int32{1, 4}}), enumR(&EnumRules{NotIn: []int32{0, 7}}), enumR(&EnumRules{Const: ptr(int32(4))})}},
		elem{Type{K: KEnum, Enum: c.enNeg}, []*Rules{enumR(&EnumRules{DefinedOnly: true}), enumR(&EnumRules{DefinedOnly: true, NotIn: []int32{-5}})}},
		elem{Type{K: KMsg, Msg: c.leaf}, []*Rules{nil, msgR(true, false), msgR(false, true), msgR(true, true)}},
		elem{Type{K: KMsg, Msg: c.multi}, []*Rules{nil, msgR(false, true)}},
		elem{Type{K: KMsg, Msg: c.imp}, []*Rules{nil, msgR(true, false)}},
		elem{Type{K: KMsg, Msg: c.dis}, []*Rules{nil}},
		elem{Type{K: KMsg, Msg: c.noPGV}, []*Rules{nil, msgR(false, true)}},
		elem{Type{K: KMsg, Msg: c.legacy}, []*Rules{nil, msgR(true, false)}},
		elem{Type{K: KMsg, Msg: wWrap[KInt32]}, []*Rules{nil, numR(&NumRules{K: KInt32, Gte: int32(3), Lt: int32(9)}), numR(&NumRules{K: KInt32, In: []any{int32(0), int32(4)}}), numR(&NumRules{K: KInt32, NotIn: []any{int32(4)}})}},
		elem{Type{K: KMsg, Msg: wWrap[KString]}, []*Rules{strR(&StrRules{MinLen: u64(1), MaxLen: u64(4)}), strR(&StrRules{NotIn: []string{"foo", "bär"}}), strR(&StrRules{Pattern: ptr(`^[a-z]*$`)})}},
		elem{Type{K: KMsg, Msg: wWrap[KBytes]}, []*Rules{strR(&StrRules{Bytes: true, In: []string{"\x00a", "", "zz"}})}},
		elem{Type{K: KMsg, Msg: wDuration}, []*Rules{nil, durR(&DurRules{Gt: &SN{2, 5}, Lte: &SN{9, 0}}), durR(&DurRules{Required: true, Lt: &SN{-1, -5}}), durR(&DurRules{In: []SN{{0, 0}, {1, 5}, {-2, -7}}}), durR(&DurRules{NotIn: []SN{{0, 0}, {3, 0}}})}},
		elem{Type{K: KMsg, Msg: wTimestamp}, []*Rules{nil, tsR(&TsRules{Gt: &SN{1000, 5}}), tsR(&TsRules{Required: true, LtNow: true})}},
		elem{Type{K: KMsg, Msg: wAny}, []*Rules{nil, anyR(&AnyRules{Required: true}), anyR(&AnyRules{In: []string{"a/b", "", "q\"uote"}}), anyR(&AnyRules{NotIn: []string{"", "x"}})}},
	)
	counts := [][2]int{{-1, -1}, {0, -1}, {1, -1}, {2, -1}, {-1, 0}, {-1, 1}, {-1, 3}, {0, 2}, {1, 3}, {2, 2}, {1, 1}, {0, 0}, {4, 7}, {17, -1}, {-1, 33}, {64, 65}}
	cnt := func(i int) (mn, mx *uint64) {
		p := counts[i%len(counts)]
		if p[0] >= 0 {
			mn = u64(p[0])
		}
		if p[1] >= 0 {
			mx = u64(p[1])
		}
		return
	}
	n := 0
	rounds := 1 + 2*g.Rich
	for _, e := range els {
		scalar := e.t.K != KMsg
		for _, it := range e.items {
			for v := 0; v < 3*rounds; v++ {
				r := &RepRules{Items: it}
				r.Min, r.Max = cnt(n)
				r.IgnoreEmpty = n%4 == 1
				r.Unique = scalar && n%2 == 0
				n++
				if it == nil && r.Min == nil && r.Max == nil && !r.Unique && !r.IgnoreEmpty {
					b.add(Repeated, e.t, nil)
					continue
				}
				b.add(Repeated, e.t, repR(r))
			}
		}
	}
	// every count shape on cheap element types, with and without ignore_empty and unique
	for i := range counts {
		for _, t := range []Type{{K: KInt32}, {K: KString}, {K: KBytes}, {K: KMsg, Msg: c.leaf}} {
			for v := 0; v < 4; v++ {
				r := &RepRules{IgnoreEmpty: v&1 == 1, Unique: v&2 == 2 && t.K != KMsg}
				r.Min, r.Max = cnt(i)
				b.add(Repeated, t, repR(r))
			}
		}
	}
	// maps
	keyRules := map[Kind][]*Rules{}
	allKeys := append(append([]Kind{}, mapKeyKinds...), KString, KBool)
	for _, k := range mapKeyKinds {
		keyRules[k] = []*Rules{nil, numR(&NumRules{K: k, Gte: numFrom(k, 3), Lt: numFrom(k, 9)}), numR(&NumRules{K: k, Const: numFrom(k, 6)}), numR(&NumRules{K: k, In: []any{numFrom(k, 0), numFrom(k, 7)}}), numR(&NumRules{K: k, NotIn: []any{numFrom(k, 0)}})}
	}
	keyRules[KBool] = []*Rules{nil, boolR(ptr(true)), boolR(ptr(false))}
	keyRules[KString] = []*Rules{nil, strR(&StrRules{MinLen: u64(2)}), strR(&StrRules{WK: "uuid"}), strR(&StrRules{In: []string{"foo", "", "b\"r"}}), strR(&StrRules{NotIn: []string{"", "k"}}), strR(&StrRules{Prefix: ptr("k%v")}), strR(&StrRules{Pattern: ptr(`^\w+$`)})}
	n = 0
	for _, e := range els {
		for _, it := range e.items {
			for v := 0; v < 3*rounds; v++ {
				k := allKeys[n%len(allKeys)]
				ks := keyRules[k]
				r := &MapRules{Values: it, Keys: ks[(n/2)%len(ks)]}
				if v == 0 {
					r.Keys = nil
				}
				r.Min, r.Max = cnt(n * 7)
				if k == KBool && (r.Min != nil && *r.Min > 2) {
					r.Min = u64(1)
				}
				r.IgnoreEmpty = n%4 == 2
				r.NoSparse = e.t.K == KMsg && n%3 != 0
				n++
				if r.Values == nil && r.Keys == nil && r.Min == nil && r.Max == nil && !r.NoSparse && !r.IgnoreEmpty {
					b.addMap(k, e.t, nil)
					continue
				}
				b.addMap(k, e.t, mapR(r))
			}
		}
	}
	for i := range counts {
		for _, t := range []Type{{K: KInt32}, {K: KMsg, Msg: c.leaf}} {
			for v := 0; v < 4; v++ {
				r := &MapRules{IgnoreEmpty: v&1 == 1, NoSparse: v&2 == 2 && t.K == KMsg}
				r.Min, r.Max = cnt(i)
				b.addMap([]Kind{KString, KInt64, KUint32}[i%3], t, mapR(r))
			}
		}
	}
	for _, k := range allKeys {
		for _, kr := range keyRules[k] {
			if kr != nil {
				b.addMap(k, Type{K: KMsg, Msg: c.strLeaf}, mapR(&MapRules{Keys: kr, NoSparse: true}))
				b.addMap(k, Type{K: KBytes}, mapR(&MapRules{Keys: kr}))
			}
		}
	}
	// proto2
	c2 := commonTypes(s, name+"p2", "proto2")
	b2 := newBuilder(s, name+"p2", g)
	b2.syntax, b2.perMsg = "proto2", 5
	for i, t := range []Type{{K: KInt64}, {K: KFloat}, {K: KString}, {K: KBytes}, {K: KBool}, {K: KEnum, Enum: c2.en}, {K: KMsg, Msg: c2.leaf}, {K: KMsg, Msg: c2.imp}, {K: KMsg, Msg: c2.multi}} {
		for v := 0; v < 4; v++ {
			r := &RepRules{Unique: t.K != KMsg && v%2 == 0, IgnoreEmpty: v == 3}
			r.Min, r.Max = cnt(i + v*3)
			if t.K == KInt64 {
				r.Items = numR(&NumRules{K: KInt64, Gt: int64(2)})
			}
			if t.K == KEnum {
				r.Items = enumR(&EnumRules{In: []int32{1, 4}})
			}
			if t.K == KString && v < 2 {
				r.Items = strR(&StrRules{In: []string{"a", "b", "\xff"[:0]}})
			}
			b2.add(Repeated, t, repR(r))
			m := &MapRules{NoSparse: t.K == KMsg && v%2 == 0}
			m.Min, m.Max = cnt(i + v*5)
			b2.addMap([]Kind{KString, KInt32}[v%2], t, mapR(m))
		}
	}
	return s
}

// msgSuite covers presence, recursion, oneofs, enums and bools.
func msgSuite(g *Gen, name string) *Suite {
	s := &Suite{}
	for _, syn := range []string{"proto3", "proto2"} {
		nm := name
		lab := Single
		if syn == "proto2" {
			nm, lab = name+"p2", Optional
		}
		c := commonTypes(s, nm, syn)
		b := newBuilder(s, nm, g)
		b.syntax, b.perMsg = syn, 6
		var msgs []*Msg
		msgs = append(msgs, c.leaf, c.strLeaf, c.plain, c.dis, c.ign, c.multi, c.imp, c.noPGV, c.legacy, wEmpty, wWrap[KInt32], wWrap[KString])
		mrs := []*Rules{nil, msgR(true, false), msgR(false, true), msgR(true, true)}
		for _, m := range msgs {
			T := Type{K: KMsg, Msg: m}
			for i, r := range mrs {
				if isWrapper(m) && r != nil && i != 2 {
					continue
				}
				b.add(lab, T, r)
				if r == nil {
					b.add(Repeated, T, nil)
					b.addMap(KString, T, nil)
				} else if m.WKT == "" {
					b.add(Repeated, T, repR(&RepRules{Items: r}))
					b.addMap(KInt32, T, mapR(&MapRules{Values: r}))
				}
			}
			// as oneof members, alongside others
			for _, req := range []bool{false, true} {
				mm := b.newMsg()
				o := mm.oneof("which_one", req)
				mm.f("num", KInt32, numR(&NumRules{K: KInt32, Gt: int32(0)})).in(o)
				for i, r := range mrs {
					if isWrapper(m) && r != nil && i != 2 {
						continue
					}
					mm.field(fmt.Sprintf("m_%d", i), Single, T, r).in(o)
				}
				mm.field("tail", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, NotIn: []any{int32(3)}}))
				b.msg = nil
			}
		}
		// wrappers of every kind: required or not, with and without rules
		for _, k := range []Kind{KFloat, KDouble, KInt32, KInt64, KUint32, KUint64} {
			T := Type{K: KMsg, Msg: wWrap[k]}
			r := numR(&NumRules{K: k, Gt: numFrom(k, 2)})
			b.add(lab, T, r)
			b.add(lab, T, r.required())
			b.add(lab, T, msgR(false, true))
			b.add(lab, T, numR(&NumRules{K: k, Gt: numFrom(k, 2), IgnoreEmpty: true}).required())
		}
		for _, bb := range []bool{true, false} {
			T := Type{K: KMsg, Msg: wWrap[KBool]}
			b.add(lab, T, boolR(&bb))
			b.add(lab, T, boolR(&bb).required())
			b.add(lab, Type{K: KBool}, boolR(&bb))
			b.add(Repeated, Type{K: KBool}, repR(&RepRules{Items: boolR(&bb)}))
			b.addMap(KString, Type{K: KBool}, mapR(&MapRules{Values: boolR(&bb)}))
			b.addMap(KBool, Type{K: KString}, mapR(&MapRules{Keys: boolR(&bb)}))
			m := b.newMsg()
			o := m.oneof("o", bb)
			m.f("yes", KBool, boolR(&bb)).in(o)
			m.f("no", KBool, nil).in(o)
			b.msg = nil
		}
		b.add(lab, Type{K: KBool}, boolR(nil))
		b.add(lab, Type{K: KMsg, Msg: wWrap[KString]}, strR(&StrRules{Const: ptr("x")}).required())
		b.add(lab, Type{K: KMsg, Msg: wWrap[KBytes]}, strR(&StrRules{Bytes: true, MinLen: u64(2)}).required())
		b.add(lab, Type{K: KMsg, Msg: wWrap[KString]}, strR(&StrRules{WK: "hostname", IgnoreEmpty: true}))
		// enums
		b.newMsg()
		nest := b.m().enum("Inner", EnumVal{"I_ZERO", 0}, EnumVal{"I_THREE", 3})
		one := b.file.enum("Single"+nm, EnumVal{"ONLY" + nm, 0})
		for _, e := range []*Enum{c.en, c.enNeg, c.enImp, nest, one} {
			v := e.Vals
			last := v[len(v)-1].N
			T := Type{K: KEnum, Enum: e}
			rs := []*EnumRules{{DefinedOnly: true}, {Const: ptr(last)}, {Const: ptr(int32(0))}, {In: []int32{0, last}}, {NotIn: []int32{last, 44}}, {In: []int32{last}, DefinedOnly: true}, {NotIn: []int32{0}, DefinedOnly: true}, {Const: ptr(int32(17))}, {In: []int32{17, -3}}, {NotIn: []int32{-3}}, {}}
			for i, r := range rs {
				if len(r.In) == 2 && r.In[0] == r.In[1] {
					continue
				}
				b.add(lab, T, enumR(r))
				if e != c.enImp || i%3 == 0 {
					b.add(Repeated, T, repR(&RepRules{Items: enumR(r)}))
					b.addMap(KString, T, mapR(&MapRules{Values: enumR(r)}))
				}
				if i%2 == 0 {
					m := b.newMsg()
					o := m.oneof("e_of", i%4 == 0)
					m.fe("a", e, enumR(r)).in(o)
					m.fe("b", e, nil).in(o)
					b.msg = nil
				}
			}
		}
		// many values, long lists
		var many []EnumVal
		for i := 0; i < 70; i++ {
			n := int32((i*37)%997) * int32(1-i%3)
			if i == 0 {
				n = 0
			} else if n == 0 {
				n = int32(1000 + i)
			}
			many = append(many, EnumVal{fmt.Sprintf("MANY%s_%d", nm, i), n})
		}
		seen := map[int32]bool{}
		uq := many[:0]
		for _, v := range many {
			if !seen[v.N] {
				seen[v.N] = true
				uq = append(uq, v)
			}
		}
		big := b.file.enum("Many"+nm, uq...)
		T := Type{K: KEnum, Enum: big}
		nums := func(lo, hi int) (out []int32) {
			for _, v := range big.Vals[lo:hi] {
				out = append(out, v.N)
			}
			return
		}
		for _, r := range []*EnumRules{{DefinedOnly: true}, {In: nums(1, 10)}, {NotIn: nums(2, 19)}, {In: nums(0, 40)}, {NotIn: nums(5, 50), DefinedOnly: true}} {
			b.add(lab, T, enumR(r))
			b.add(Repeated, T, repR(&RepRules{Items: enumR(r)}))
			b.addMap(KString, T, mapR(&MapRules{Values: enumR(r)}))
		}
		// a wide message with wide oneofs
		wide := b.newMsg()
		w1, w2 := wide.oneof("wide_a", true), wide.oneof("wide_b", false)
		for i := 0; i < 70; i++ {
			n := fmt.Sprintf("w_%d", i)
			var f *Field
			switch i % 4 {
			case 0:
				f = wide.f(n, KInt32, numR(&NumRules{K: KInt32, NotIn: []any{int32(7000 + i)}}))
			case 1:
				f = wide.f(n, KString, strR(&StrRules{NotIn: []string{"bad"}}))
			case 2:
				f = wide.fm(n, c.leaf, nil)
			default:
				f = wide.f(n, KBool, nil)
			}
			if i%10 < 6 {
				f.in([]*Oneof{w1, w2}[i/35])
			} else if syn == "proto2" {
				f.Label = Optional
			}
		}
		b.msg = nil
		// oneofs of one member
		for i, f := range []func(m *Msg) *Field{
			func(m *Msg) *Field { return m.f("sole", KInt32, nil) },
			func(m *Msg) *Field { return m.f("sole", KInt32, numR(&NumRules{K: KInt32, Gt: int32(0)})) },
			func(m *Msg) *Field { return m.f("sole", KString, strR(&StrRules{MinLen: u64(1)})) },
			func(m *Msg) *Field { return m.f("sole", KBool, boolR(ptr(false))) },
			func(m *Msg) *Field { return m.fe("sole", c.en, enumR(&EnumRules{DefinedOnly: true})) },
			func(m *Msg) *Field { return m.fm("sole", c.leaf, nil) },
			func(m *Msg) *Field { return m.fm("sole", c.leaf, msgR(false, true)) },
			func(m *Msg) *Field { return m.fm("sole", c.leaf, msgR(true, false)) },
			func(m *Msg) *Field { return m.fm("sole", wWrap[KInt64], numR(&NumRules{K: KInt64, Lt: int64(0)})) },
			func(m *Msg) *Field { return m.fm("sole", wDuration, durR(&DurRules{Required: true})) },
			func(m *Msg) *Field { return m.fm("sole", wAny, nil) },
		} {
			for _, req := range []bool{true, false} {
				m := b.newMsg()
				o := m.oneof("one_of", req)
				f(m).in(o)
				if i%2 == 0 { // and a second one beside it
					m.f("other_sole", KUint64, nil).in(m.oneof("another", !req))
				}
				b.msg = nil
			}
		}
		// several oneofs per message, in mixed order with plain fields
		for v := 0; v < 4; v++ {
			m := b.newMsg()
			o1 := m.oneof("first_of", v&1 == 1)
			o2 := m.oneof("second", v&2 == 2)
			m.f("s", KString, strR(&StrRules{Len: u64(3)})).in(o1)
			m.field("plain_a", lab, Type{K: KInt64}, numR(&NumRules{K: KInt64, Lt: int64(9)}))
			m.f("by", KBytes, strR(&StrRules{Bytes: true, Contains: ptr("z")})).in(o2)
			m.f("dd", KDouble, numR(&NumRules{K: KDouble, Lte: 0.5})).in(o1)
			m.fm("ww", wWrap[KUint32], numR(&NumRules{K: KUint32, Const: uint32(8)}).required()).in(o2)
			m.fm("dur", wDuration, durR(&DurRules{Required: true, Gt: &SN{0, 0}})).in(o1)
			m.fm("ts", wTimestamp, tsR(&TsRules{Lt: &SN{5, 0}})).in(o2)
			m.fm("an", wAny, anyR(&AnyRules{In: []string{"u"}})).in(o2)
			m.fe("en", c.en, enumR(&EnumRules{DefinedOnly: true})).in(o1)
			m.field("plain_b", lab, Type{K: KMsg, Msg: c.leaf}, msgR(false, true))
			b.msg = nil
		}
		// disabled and ignored messages with nested ones; siblings stay checked
		m := b.newMsg()
		m.Disabled = true
		in := m.nested("In")
		in.field("q", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(0)}))
		m.field("in", lab, Type{K: KMsg, Msg: in}, msgR(false, true))
		oo := m.oneof("must", true)
		m.f("z", KInt32, nil).in(oo)
		ig := b.newMsg()
		ig.Ignored = true
		in2 := ig.nested("In")
		in2.field("q", lab, Type{K: KInt32}, numR(&NumRules{K: KInt32, Gt: int32(0)}))
		ig.field("in", lab, Type{K: KMsg, Msg: in2}, msgR(false, true))
		b.newMsg()
		b.add(lab, Type{K: KMsg, Msg: in}, nil)
		b.add(lab, Type{K: KMsg, Msg: in2}, msgR(false, true))
		b.add(lab, Type{K: KMsg, Msg: m}, msgR(false, true))
		b.add(lab, Type{K: KMsg, Msg: ig}, nil)
		b.add(lab, Type{K: KMsg, Msg: c.leaf}, nil)
		b.newMsg() // no rules at all, and an empty message
		b.newMsg()
		b.add(lab, Type{K: KInt32}, nil)
		b.add(Repeated, Type{K: KString}, nil)
		b.newMsg()
		// three levels of nesting, rules only at the bottom
		t := b.m()
		a1 := t.nested("A")
		a2 := a1.nested("B")
		a3 := a2.nested("C")
		a3.field("deep", lab, Type{K: KString}, strR(&StrRules{Const: ptr("ok")}))
		a2.field("c", lab, Type{K: KMsg, Msg: a3}, nil)
		a1.rep("b", Type{K: KMsg, Msg: a2}, nil)
		t.mp("a", KUint64, Type{K: KMsg, Msg: a1}, nil)
		b.newMsg()
	}
	return s
}

// nodeCases builds random trees of the recursive type.
func nodeCases(g *Gen, s *Suite, n int) (out []*Case) {
	for _, f := range s.Files {
		for _, m := range f.Msgs {
			if m.Name != "Node" {
				continue
			}
			by := map[string]*Field{}
			for _, fl := range m.Fields {
				by[fl.Name] = fl
			}
			var tree func(depth int, bad float64) *MVal
			tree = func(depth int, bad float64) *MVal {
				v := newVal(m)
				x := int32(g.Intn(5))
				if g.Float64() < bad {
					x = -1 - x
				}
				v.F[by["v"]] = x
				if depth <= 0 {
					if g.Intn(4) == 0 {
						v.F[by["alt_num"]] = int32(4 - g.Intn(2))
					}
					return v
				}
				if g.Intn(2) == 0 {
					v.F[by["next"]] = tree(depth-1, bad)
				}
				if g.Intn(3) == 0 {
					var l []any
					for i := 0; i < 1+g.Intn(3); i++ {
						k := tree(depth-2, bad)
						if !g.NoNil && g.Intn(8) == 0 {
							k = &MVal{M: m, Nil: true}
						}
						l = append(l, k)
					}
					v.F[by["kids"]] = l
				}
				if g.Intn(3) == 0 {
					v.F[by["by_name"]] = []MapEnt{{"k%", tree(depth-2, bad)}}
				}
				if g.Intn(3) == 0 {
					v.F[by["alt_node"]] = tree(depth-1, bad)
				}
				return v
			}
			for i := 0; i < n; i++ {
				bad := []float64{0, 0.05, 0.3, 1}[i%4]
				out = append(out, &Case{M: m, V: tree(1+i%7, bad), Why: "tree"})
			}
			for _, d := range []int{50, 500} {
				for _, leafBad := range []bool{false, true} {
					v := newVal(m)
					if leafBad {
						v.F[by["v"]] = int32(-1)
					}
					for i := 0; i < d; i++ {
						p := newVal(m)
						if i%3 == 0 {
							p.F[by["kids"]] = []any{v}
						} else if i%3 == 1 {
							p.F[by["alt_node"]] = v
						} else {
							p.F[by["next"]] = v
						}
						v = p
					}
					out = append(out, &Case{M: m, V: v, Why: fmt.Sprintf("chain%d", d)})
				}
			}
		}
	}
	return
}

// wktSuite covers Duration, Timestamp and Any.
func wktSuite(g *Gen, name string) *Suite {
	s := &Suite{}
	for _, syn := range []string{"proto3", "proto2"} {
		nm := name
		lab := Single
		if syn == "proto2" {
			nm, lab = name+"p2", Optional
		}
		b := newBuilder(s, nm, g)
		b.syntax, b.perMsg = syn, 5
		put := func(w *Msg, i int, r *Rules, req *Rules) {
			T := Type{K: KMsg, Msg: w}
			b.add(lab, T, r)
			if i%2 == 0 || syn == "proto3" {
				b.add(lab, T, req)
			}
			b.add(Repeated, T, repR(&RepRules{Items: r}))
			x := req
			if i%2 == 0 {
				x = r
			}
			b.addMap([]Kind{KString, KInt32, KBool}[i%3], T, mapR(&MapRules{Values: x}))
			m := b.newMsg()
			o := m.oneof("o", i%2 == 0)
			m.fm("x", w, r).in(o)
			m.fm("y", w, req).in(o)
			b.msg = nil
		}
		durs := []SN{{0, 0}, {0, 1}, {0, -1}, {1, 0}, {-1, 0}, {5, 999999999}, {-5, -999999999}, {60, 0}, {9223372036, 0}, {-9223372036, 0}, {3600, 5}, {123456789, 987654321}}
		var drs []*DurRules
		for i, a := range durs {
			a := a
			drs = append(drs, &DurRules{Const: &a}, &DurRules{Lt: &a}, &DurRules{Gte: &a})
			if i%2 == 0 {
				drs = append(drs, &DurRules{Lte: &a}, &DurRules{Gt: &a})
			}
			x, y := a, durs[(i*5+3)%len(durs)]
			if snCmp(x, y) == 0 {
				continue
			}
			switch i % 4 {
			case 0:
				drs = append(drs, &DurRules{Gt: &x, Lt: &y}, &DurRules{Gt: &y, Lt: &x})
			case 1:
				drs = append(drs, &DurRules{Gte: &x, Lt: &y}, &DurRules{Gte: &y, Lt: &x})
			case 2:
				drs = append(drs, &DurRules{Gt: &x, Lte: &y}, &DurRules{Gt: &y, Lte: &x})
			case 3:
				drs = append(drs, &DurRules{Gte: &x, Lte: &y}, &DurRules{Gte: &y, Lte: &x})
			}
			drs = append(drs, &DurRules{In: []SN{x, y}}, &DurRules{NotIn: []SN{y, x}}, &DurRules{NotIn: []SN{x}, Gt: &y})
		}
		for i := 0; i < 8+40*g.Rich; i++ {
			x, y := SN{g.Int63n(4000000) - 2000000, 0}, SN{g.Int63n(4000000) - 2000000, 0}
			x.N, y.N = int32(g.Intn(1e9)), int32(g.Intn(1e9))
			x, y = durNormSign(x), durNormSign(y)
			drs = append(drs, &DurRules{Gt: &x, Lt: &y}, &DurRules{Gte: &y, Lte: &x})
		}
		drs = append(drs, &DurRules{})
		for i, r := range drs {
			q := *r
			q.Required = true
			put(wDuration, i, durR(r), durR(&q))
		}
		tss := []SN{{0, 0}, {0, 1}, {1, 0}, {-1, 999999999}, {946684800, 0}, {1500000000, 123456789}, {-62135596800, 0}, {253402300799, 999999999}, {20000000000, 7}, {-30000000000, 5}}
		var trs []*TsRules
		for i, a := range tss {
			a := a
			trs = append(trs, &TsRules{Const: &a}, &TsRules{Lt: &a}, &TsRules{Gte: &a})
			if i%2 == 0 {
				trs = append(trs, &TsRules{Lte: &a}, &TsRules{Gt: &a})
			}
			x, y := a, tss[(i*7+3)%len(tss)]
			if snCmp(x, y) == 0 {
				continue
			}
			switch i % 4 {
			case 0:
				trs = append(trs, &TsRules{Gt: &x, Lt: &y}, &TsRules{Gt: &y, Lt: &x})
			case 1:
				trs = append(trs, &TsRules{Gte: &x, Lt: &y}, &TsRules{Gte: &y, Lt: &x})
			case 2:
				trs = append(trs, &TsRules{Gt: &x, Lte: &y}, &TsRules{Gt: &y, Lte: &x})
			case 3:
				trs = append(trs, &TsRules{Gte: &x, Lte: &y}, &TsRules{Gte: &y, Lte: &x})
			}
		}
		for i := 0; i < 6+40*g.Rich; i++ {
			x, y := SN{g.Int63n(4e9) - 2e9, int32(g.Intn(1e9))}, SN{g.Int63n(4e9) - 2e9, int32(g.Intn(1e9))}
			trs = append(trs, &TsRules{Gt: &x, Lt: &y}, &TsRules{Gte: &y, Lte: &x})
		}
		trs = append(trs, &TsRules{LtNow: true}, &TsRules{GtNow: true})
		for _, w := range []SN{{1, 0}, {0, 1}, {3600, 0}, {5, 500000000}, {315360000, 0}} {
			w := w
			trs = append(trs, &TsRules{Within: &w}, &TsRules{LtNow: true, Within: &w}, &TsRules{GtNow: true, Within: &w})
		}
		trs = append(trs, &TsRules{})
		for i, r := range trs {
			q := *r
			q.Required = true
			put(wTimestamp, i, tsR(r), tsR(&q))
		}
		drs = nil
		var longD []SN
		for i := int64(0); i < 40; i++ {
			longD = append(longD, durNormSign(SN{(i*37 + 11) % 97, int32(i * 1000003)}))
		}
		for i, r := range []*DurRules{{In: longD[:9]}, {NotIn: longD[:17]}, {In: longD}, {NotIn: longD[2:40]}} {
			q := *r
			q.Required = true
			put(wDuration, i, durR(r), durR(&q))
		}
		anys := []*AnyRules{{In: bigStrs(9, false)}, {NotIn: bigStrs(17, false)}, {In: bigStrs(33, false)}, {}, {In: []string{"type.googleapis.com/google.protobuf.Duration"}}, {In: []string{"a/b", "", "q\"uote"}}, {NotIn: []string{"type.googleapis.com/google.protobuf.Duration"}}, {NotIn: []string{"", "x"}}}
		for i, r := range anys {
			q := *r
			q.Required = true
			put(wAny, i, anyR(r), anyR(&q))
			put(wAny, i+1, anyR(r), anyR(&q))
		}
	}
	return s
}

// nowCases are the messages with clock-relative rules, at several clock offsets.
func nowCases(g *Gen, s *Suite) (out []*Case) {
	defer func() { g.At = 0 }()
	for _, at := range []int64{1, 999_999_999, 3_600_000_000_000, 86_400_000_000_000*365*2 + 17, 86_400_000_000_000 * 365 * 12} {
		g.At = at
		for _, f := range s.Files {
			g.Syntax2 = f.Syntax == "proto2"
			for _, m := range f.allMsgs() {
				use := false
				for _, fl := range m.Fields {
					for _, r := range []*Rules{fl.R, subR(fl.R)} {
						use = use || r != nil && r.Ts != nil && (r.Ts.LtNow || r.Ts.GtNow || r.Ts.Within != nil)
					}
				}
				if use {
					out = append(out, g.casesFor(m, 0, 3)...)
				}
			}
		}
	}
	return
}

func subR(r *Rules) *Rules {
	if r != nil && r.Rep != nil {
		return r.Rep.Items
	}
	if r != nil && r.Map != nil {
		return r.Map.Values
	}
	return nil
}
