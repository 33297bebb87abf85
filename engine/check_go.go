package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// goSuiteCheck builds the suite, runs all cases and judges them.
func (c *CheckCtx) goSuiteCheck(name string, s *Suite, cs []*Case, lvl Level, deep, race bool) error {
	b, err := c.W.buildGo(name, s, race)
	if err != nil {
		return c.broken(err)
	}
	for i, x := range cs {
		x.ID = i
	}
	obs, crash, err := c.W.runGo(b, cs, deep)
	if err != nil {
		return err
	}
	if crash != "" {
		c.violation(c.ID+":driver-crash", "the process running the generated validators died: "+crash, nil)
		return nil
	}
	c.add("messages_types", countMsgs(s))
	c.add("rule_fields", countRuleFields(s))
	rej, acc, unset, maybe := 0, 0, 0, 0
	for _, x := range cs {
		o := obs[x.ID]
		if o != nil && o.Err != "" {
			unset++
			continue
		}
		c.Evals++
		if d := judgeGo(x, o, lvl); d != "" {
			key := fmt.Sprintf("%s:%s:%s", x.M.Full, x.Why, firstTag(x))
			data := c.caseData(x)
			data["observed_validate"], data["observed_validate_all"] = showObs(o0(o).V), showObs(o0(o).A)
			c.violation(key, d, data)
			continue
		}
		if o.V != nil {
			rej++
		} else {
			acc++
		}
		ctx := &Ctx{Now: x.now(), Go: true}
		e := ctx.evalMsg(x.V)
		if !e.must() && e.may() {
			maybe++
		} else {
			var t []string
			for _, v := range e.V {
				t = append(t, v.Field+v.Tag)
			}
			c.nontrivial(x.M.Full, x.Why, strings.Join(t, ","), string(x.V.encode()))
		}
		if len(c.Samples) < 12 && (len(c.Samples)%2 == 0) == (o.V != nil) && x.Why != "empty" {
			c.sample(map[string]any{"message": x.M.Full, "value": trunc(x.V.String(), 400), "validate": showObs(o.V), "expected": showExp(e)})
		}
	}
	c.add("observed_rejections", rej)
	c.add("observed_acceptances", acc)
	c.add("undecodable_cases_skipped", unset)
	c.add("unspecified_verdicts_not_judged", maybe)
	if acc == 0 || rej == 0 {
		return infra("vacuous run: %d acceptances, %d rejections", acc, rej)
	}
	return nil
}

func o0(o *Obs) *Obs {
	if o == nil {
		return &Obs{}
	}
	return o
}

func firstTag(x *Case) string {
	e := (&Ctx{Now: x.now(), Go: true}).evalMsg(x.V)
	if len(e.V) == 0 {
		return "conforming"
	}
	return e.V[0].Field + "/" + e.V[0].Tag
}

func countMsgs(s *Suite) (n int) {
	for _, f := range s.Files {
		n += len(f.allMsgs())
	}
	return
}

func countRuleFields(s *Suite) (n int) {
	for _, f := range s.Files {
		for _, m := range f.allMsgs() {
			for _, fl := range m.Fields {
				if fl.R != nil {
					n++
				}
			}
		}
	}
	return
}

const goRule = "schemas are generated systematically over rule shapes x types x positions with seed-chosen constants; values are every boundary neighbour of every constant, type extremes, format corpora and random ones, one field varied at a time with the others conforming, plus random mixtures. A case is non-trivial when the reference semantics settles its verdict; distinct by message type, varied field, expected violations and bytes."

func init() {
	checks["C01"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = goRule
		c.Assume = []string{"NaN against range bounds is not judged", "protoc, protoc-gen-go and the Go toolchain are trusted"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed)
		g.Rich = c.Rich
		s := numSuite(g, "num", 4+4*c.Rich)
		return c.goSuiteCheck("go", s, s.cases(g, 0, 15+60*c.Rich), LVerdict, false, false)
	}}
}

func init() {
	checks["C02"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = goRule
		c.Assume = []string{"patterns are judged by Go's own regexp package (RE2 search semantics)", "protoc, protoc-gen-go and the Go toolchain are trusted"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed)
		g.Rich = c.Rich
		s := strSuite(g, "str", strOpts{})
		return c.goSuiteCheck("go", s, s.cases(g, 0, 15+60*c.Rich), LVerdict, false, false)
	}}
	checks["C03"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = goRule
		c.Assume = []string{"corners of RFC 5322 and RFC 3986 that the documentation does not settle (quoted local parts, comments, IRIs, percent-encoded hosts, IPv4-mapped IPv6 as ipv4 or ipv6) are not judged"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed)
		g.Rich = c.Rich
		s := fmtSuite(g, "wkf")
		return c.goSuiteCheck("go", s, s.cases(g, 1, 20+80*c.Rich), LVerdict, false, false)
	}}
}

func init() {
	type mk func(c *CheckCtx, g *Gen) (*Suite, []*Case)
	reg := func(id string, assume []string, f mk) {
		checks[id] = check{level: "exploration", run: func(c *CheckCtx) error {
			c.Rule = goRule
			c.Assume = append(assume, "protoc, protoc-gen-go and the Go toolchain are trusted")
			if err := c.W.buildPlugin(); err != nil {
				return err
			}
			g := newGen(c.Seed)
			g.Rich = c.Rich
			s, cs := f(c, g)
			return c.goSuiteCheck("go", s, cs, LVerdict, false, false)
		}}
	}
	reg("C04", nil, func(c *CheckCtx, g *Gen) (*Suite, []*Case) {
		s := contSuite(g, "cont")
		return s, s.cases(g, 1, 10+40*c.Rich)
	})
	reg("C05", nil, func(c *CheckCtx, g *Gen) (*Suite, []*Case) {
		s := msgSuite(g, "msg")
		cs := s.cases(g, 1, 20+60*c.Rich)
		return s, append(cs, nodeCases(g, s, 400+4000*c.Rich)...)
	})
	reg("C06", []string{"a timestamp exactly 'within' away from the clock is not judged"}, func(c *CheckCtx, g *Gen) (*Suite, []*Case) {
		s := wktSuite(g, "wkt")
		cs := s.cases(g, 0, 8+40*c.Rich)
		return s, append(cs, nowCases(g, s)...)
	})
}

// allGo merges the suites of C01 to C06 into one; frac keeps that share of the cases.
func allGo(c *CheckCtx, g *Gen, tag string, frac int) (*Suite, []*Case) {
	all := &Suite{}
	var cs []*Case
	take := func(s *Suite, x []*Case) {
		all.Files = append(all.Files, s.Files...)
		for i, y := range x {
			if y.Why == "mix" || y.Why == "empty" || y.Why == "tree" || (i+int(c.Seed))%frac == 0 {
				cs = append(cs, y)
			}
		}
	}
	s := numSuite(g, "num"+tag, 3)
	take(s, s.cases(g, 0, 15))
	s = strSuite(g, "str"+tag, strOpts{})
	take(s, s.cases(g, 0, 10))
	s = fmtSuite(g, "wkf"+tag)
	take(s, s.cases(g, 1, 10))
	s = contSuite(g, "cont"+tag)
	take(s, s.cases(g, 1, 25))
	s = msgSuite(g, "msg"+tag)
	take(s, append(s.cases(g, 2, 30), nodeCases(g, s, 1500)...))
	s = wktSuite(g, "wkt"+tag)
	take(s, append(s.cases(g, 0, 10), nowCases(g, s)...))
	return all, cs
}

func init() {
	checks["C07"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = goRule + " Every field of every error is compared (type, ErrorName, Field, Reason, Key, Cause recursively, Error text), and the list ValidateAll returns is matched one to one with the expected violations."
		c.Assume = []string{"Reason text of the format rules (uri, headers) and of duration lists is compared by its fixed prefix only", "protoc, protoc-gen-go and the Go toolchain are trusted"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed + 7)
		g.Rich = c.Rich
		s, cs := allGo(c, g, "", 3-2*c.Rich)
		return c.goSuiteCheck("go", s, cs, LFull, false, false)
	}}
}

func nilCases(s *Suite) (out []*Case) {
	for _, f := range s.Files {
		for _, m := range f.allMsgs() {
			if !m.NoPGV && !m.Ignored {
				out = append(out, &Case{M: m, V: newVal(m), NilR: true, Why: "nil receiver"})
			}
		}
	}
	return
}

func init() {
	checks["C08"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = goRule + " Every case is also validated twice with a deep snapshot of the message around it, in four variants only Go code can build (invalid UTF-8, typed-nil oneof wrappers, nil elements, minimal integers), and on nil receivers; then all goroutines validate all messages at once under the race detector."
		c.Assume = []string{"schedules are those the Go scheduler produced in the recorded runs", "protoc, protoc-gen-go and the Go toolchain are trusted"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed + 8)
		g.Rich = c.Rich
		s, cs := allGo(c, g, "", 12-9*c.Rich)
		cs = append(cs, nilCases(s)...)
		if err := c.goSuiteCheck("go", s, cs, LVerdict, true, false); err != nil {
			return err
		}
		if len(c.viol) > 0 {
			return nil
		}
		// concurrency
		g = newGen(c.Seed + 88)
		rs, rc := allGo(c, g, "r", 40)
		b, err := c.W.buildGo("race", rs, true)
		if err != nil {
			return c.broken(err)
		}
		perMsg := map[*Msg]int{}
		var pick []*Case
		for i, j := range rand.New(rand.NewSource(c.Seed)).Perm(len(rc)) {
			_ = i
			x := rc[j]
			if perMsg[x.M] < 4+8*c.Rich && !strings.HasPrefix(x.Why, "chain") {
				perMsg[x.M]++
				pick = append(pick, x)
			}
		}
		for i, x := range pick {
			x.ID = i
		}
		diffs, race, n, err := c.W.runConc(b, pick, 16, 1+5*c.Rich)
		if err != nil {
			return err
		}
		if race != "" {
			c.violation("C08:race", race, nil)
		}
		for i, d := range diffs {
			if i < 5 {
				c.violation("C08:concurrent:"+trunc(d, 40), d, nil)
			}
		}
		c.add("concurrent_validations_under_race_detector", n)
		c.add("concurrent_messages", len(pick))
		return nil
	}}
}
