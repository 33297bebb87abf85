package main

import "encoding/json"

// Case is one message value to validate.
type Case struct {
	ID   int
	M    *Msg
	V    *MVal
	NilR bool
	At   int64 // clock offset for Go runs, ns
	Why  string
}

func (c *Case) now() SN {
	s := fixedNow
	b := snNorm(s)
	b.Add(b, bigInt(c.At))
	return bigSN(b)
}

func (c *Case) line() []byte {
	type jc struct {
		I   int      `json:"i"`
		M   string   `json:"m"`
		B   []byte   `json:"b"`
		Nil []string `json:"n,omitempty"`
		R   bool     `json:"r,omitempty"`
		At  int64    `json:"at,omitempty"`
	}
	j := jc{I: c.ID, M: c.M.Full, R: c.NilR, At: c.At}
	if !c.NilR {
		j.B = c.V.encode()
		c.V.nils("", &j.Nil)
	}
	b, err := json.Marshal(j)
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// casesFor enumerates values of m: every candidate of every field with the
// other fields conforming, then random mixtures.
func (g *Gen) casesFor(m *Msg, depth, mixes int) (out []*Case) {
	cands := map[*Field][]any{}
	goodv := map[*Field]any{}
	c := &Ctx{Now: g.now()}
	req := map[*Oneof]*Field{}
	for _, f := range m.Fields {
		cands[f] = g.fieldCands(f, depth)
		goodv[f] = absent{}
		found := false
		for _, x := range cands[f] {
			t := newVal(m)
			if _, un := x.(absent); !un {
				t.F[f] = x
			} else if f.Label == Required {
				continue
			}
			if len(c.evalField(t, f)) == 0 {
				goodv[f] = x
				found = true
				if _, un := x.(absent); !un || f.Oneof != nil {
					break
				}
			}
		}
		if !found && len(cands[f]) > 0 {
			goodv[f] = cands[f][0]
		}
		if f.Oneof != nil {
			if f.Oneof.Required && req[f.Oneof] == nil {
				// a conforming member, preferably
				for _, x := range cands[f] {
					if _, un := x.(absent); un {
						continue
					}
					t := newVal(m)
					t.F[f] = x
					if len(c.evalField(t, f)) == 0 {
						req[f.Oneof] = f
						goodv[f] = x
						break
					}
				}
			} else {
				goodv[f] = absent{}
			}
			if req[f.Oneof] != f {
				goodv[f] = absent{}
			}
		}
	}
	setf := func(v *MVal, f *Field, x any) {
		if f.Oneof != nil {
			for _, o := range m.Fields {
				if o.Oneof == f.Oneof {
					delete(v.F, o)
				}
			}
		}
		if _, un := x.(absent); un {
			delete(v.F, f)
		} else {
			v.F[f] = x
		}
	}
	base := newVal(m)
	for _, f := range m.Fields {
		if _, un := goodv[f].(absent); !un {
			setf(base, f, goodv[f])
		}
	}
	emit := func(v *MVal, why string) { out = append(out, &Case{M: m, V: v, Why: why, At: g.At}) }
	emit(newVal(m), "empty")
	emit(base, "conforming")
	for _, f := range m.Fields {
		for _, x := range cands[f] {
			v := base.clone()
			setf(v, f, x)
			emit(v, f.Name)
		}
	}
	for i := 0; i < mixes; i++ {
		v := newVal(m)
		for _, f := range m.Fields {
			if len(cands[f]) == 0 {
				continue
			}
			if f.Oneof != nil && g.Intn(3) > 0 {
				continue
			}
			x := cands[f][g.Intn(len(cands[f]))]
			if g.Intn(3) == 0 {
				x = goodv[f]
			}
			if f.Oneof != nil {
				if _, un := x.(absent); un {
					continue
				}
			}
			setf(v, f, x)
		}
		for _, f := range m.Fields {
			if f.Label == Required {
				if _, ok := v.F[f]; !ok {
					setf(v, f, goodv[f])
				}
			}
		}
		emit(v, "mix")
	}
	return
}

func (s *Suite) cases(g *Gen, depth, mixes int) (out []*Case) {
	for _, f := range s.Files {
		syn := f.Syntax == "proto2"
		g.Syntax2 = syn
		for _, m := range f.allMsgs() {
			if m.NoPGV || m.Ignored || m.Tags["nocase"] {
				continue
			}
			out = append(out, g.casesFor(m, depth, mixes)...)
		}
	}
	for i, c := range out {
		c.ID = i
	}
	return
}
