package main

// C17: the Python runtime validator against the reference semantics.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type PyObs struct {
	I int    `json:"i"`
	K string `json:"k"` // T accepted, F ValidationFailed, X another exception, R recursion limit, M message changed, B undecodable, D a later validation differed
	M string `json:"m"`
	A int64  `json:"a"` // the clock before and after, ns
	B int64  `json:"b"`
}

type PyBuild struct {
	Dir, FDS, Lib string
}

func (w *Work) buildPy(name string, s *Suite) (*PyBuild, error) {
	b := &PyBuild{Dir: filepath.Join(w.Dir, name)}
	src := filepath.Join(b.Dir, "src")
	paths, err := w.writeProtos(src, s)
	if err != nil {
		return nil, err
	}
	b.FDS, b.Lib = filepath.Join(b.Dir, "fds"), filepath.Join(b.Dir, "lib")
	r, err := w.protoc(src, []string{"--include_imports", "--descriptor_set_out=" + b.FDS}, append(paths, "validate/validate.proto"))
	if err != nil {
		return nil, err
	}
	if r.code != 0 {
		return nil, infra("protoc --descriptor_set_out: %s", tail(r.err, 2000))
	}
	err = fs.WalkDir(drivers, "drivers/py", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".py") {
			return err
		}
		x, err := drivers.ReadFile(p)
		if err != nil {
			return err
		}
		t := filepath.Join(b.Lib, strings.TrimPrefix(p, "drivers/py/"))
		os.MkdirAll(filepath.Dir(t), 0o755)
		return os.WriteFile(t, x, 0o644)
	})
	if err != nil {
		return nil, infra("%v", err)
	}
	return b, nil
}

// runPy validates the cases in one interpreter per shard, in the given order,
// each case twice. later lists the cases whose second outcome differed.
func (w *Work) runPy(b *PyBuild, cs []*Case, order string) (obs map[int]*PyObs, later []*PyObs, err error) {
	n := min(8, 1+len(cs)/200)
	res, lat := make([]map[int]*PyObs, n), make([][]*PyObs, n)
	// one message type stays in one interpreter
	shard := map[*Msg]int{}
	parts := make([][]*Case, n)
	for _, c := range cs {
		k, ok := shard[c.M]
		if !ok {
			k = len(shard) % n
			shard[c.M] = k
		}
		parts[k] = append(parts[k], c)
	}
	env := []string{"PYTHONPATH=" + b.Lib + ":" + filepath.Join(w.Repo, "python"), "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0", "PYTHONNOUSERSITE=1", "PYTHONIOENCODING=utf-8"}
	tag := strings.ReplaceAll(order, ":", "")
	err = parallel(n, func(sh int) error {
		cf, of := filepath.Join(b.Dir, fmt.Sprintf("%s.%d.cases", tag, sh)), filepath.Join(b.Dir, fmt.Sprintf("%s.%d.obs", tag, sh))
		if err := writeCases(cf, parts[sh]); err != nil {
			return err
		}
		r, err := w.run(b.Dir, 10*time.Minute, env, nil, "python3", filepath.Join(b.Lib, "drv.py"), b.FDS, cf, of, order)
		if err != nil {
			return err
		}
		if r.code == 4 {
			return infra("importing the validator: %s", tail(r.out, 2000))
		}
		if r.code != 0 || !strings.Contains(r.out, "DRV-OK") {
			return infra("Python driver: exit %d, timeout %v: %s", r.code, r.timeout, tail(r.err, 2000))
		}
		x, err := os.ReadFile(of)
		if err != nil {
			return infra("%v", err)
		}
		res[sh] = map[int]*PyObs{}
		sc := bufio.NewScanner(bytes.NewReader(x))
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			if sc.Text() == "DRV-OK" {
				return nil
			}
			o := &PyObs{}
			if err := json.Unmarshal(sc.Bytes(), o); err != nil {
				return infra("observation: %v", err)
			}
			if o.K == "D" {
				lat[sh] = append(lat[sh], o)
			} else {
				res[sh][o.I] = o
			}
		}
		return infra("observations end early")
	})
	if err != nil {
		return nil, nil, err
	}
	obs = map[int]*PyObs{}
	for i, m := range res {
		for k, o := range m {
			obs[k] = o
		}
		later = append(later, lat[i]...)
	}
	return obs, later, nil
}

func pyUnsettled(v *MVal) bool {
	return badTimes(v)
}

func judgePy(c *Case, o *PyObs) string {
	if o == nil {
		return "no observation recorded for the case"
	}
	must, may := true, false
	var e *Expect
	for _, n := range []int64{o.A, o.B} {
		e = (&Ctx{Now: SN{n / 1000000000, int32(n % 1000000000)}}).evalMsg(c.V)
		must = must && e.must()
		may = may || e.may()
	}
	switch o.K {
	case "T":
		if must {
			return "accepted a message that violates its rules: " + showExp(e)
		}
	case "F":
		if !may {
			return "rejected a conforming message: " + o.M
		}
	case "R":
		return "the recursion limit was reached"
	case "X":
		return "an exception other than ValidationFailed: " + o.M
	default:
		return o.M
	}
	return ""
}

// pyDialects lists how Python's re reads constructs that RE2 reads otherwise;
// the validator hands patterns to re as they are written.
var pyDialects = []struct{ key, re2, py string }{
	{"special:python-re-end", `$`, "(?:\n?\\z)"},
	{"special:python-re-unicode-digit", `\d`, `\p{Nd}`},
	{"special:python-re-unicode-space", `\s`, `[\s\v\x1c-\x1f\x85\p{Z}]`},
	{"special:python-re-unicode-word", `\w`, `[\pL\p{Nd}\p{No}\p{Nl}_]`},
	{"special:python-re-byte-units", "", ""},
	{"special:python-re-posix-class", `[[:upper:]]`, `[\[:uper]\]`},
}

// pyDialect tells which difference between the dialects explains a verdict,
// if exactly one does.
func pyDialect(c *Case, o *PyObs) string {
	if o == nil {
		return ""
	}
	if o.K == "X" {
		for _, e := range []string{`\z`, `\p`} {
			if strings.Contains(o.M, "re.error: bad escape "+e+" ") {
				return "special:python-re-escape" + e
			}
		}
		return ""
	}
	saved := reMatch
	defer func() { reMatch = saved }()
	for _, d := range pyDialects {
		reMatch = func(pat, s string, by bool) bool {
			switch {
			case strings.HasPrefix(pat, "(?m)") || strings.Contains(pat, `\$`):
				return saved(pat, s, by)
			case d.re2 == "": // every byte is a character of its own
				if by {
					pat, s = latin1(pat), latin1(s)
				}
				return saved(pat, s, by)
			}
			return saved(strings.ReplaceAll(pat, d.re2, d.py), s, by)
		}
		if judgePy(c, o) == "" {
			return d.key
		}
	}
	return ""
}

func latin1(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}

func pySuites(c *CheckCtx, g *Gen, tag string) (*Suite, []*Case) {
	all := &Suite{}
	var cs []*Case
	take := func(s *Suite, x []*Case) {
		all.Files = append(all.Files, s.Files...)
		for _, y := range x {
			if !hasNil(y.V) {
				cs = append(cs, y)
			}
		}
	}
	g.NoNil = true
	g.At = time.Now().UnixNano() - fixedNow.S*1000000000
	mix := 4 + 20*c.Rich
	s := numSuite(g, "ynum"+tag, 2+3*c.Rich)
	take(s, s.cases(g, 0, mix))
	s = strSuite(g, "ystr"+tag, strOpts{})
	take(s, s.cases(g, 0, mix))
	s = fmtSuite(g, "ywkf"+tag)
	take(s, s.cases(g, 1, mix))
	s = contSuite(g, "ycont"+tag)
	take(s, s.cases(g, 1, mix))
	s = msgSuite(g, "ymsg"+tag)
	take(s, append(s.cases(g, 2, mix), nodeCases(g, s, 200+1000*c.Rich)...))
	s = wktSuite(g, "ywkt"+tag)
	take(s, s.cases(g, 0, mix))
	s = pyNameSuite("yname" + tag)
	take(s, s.cases(g, 1, mix))
	for i, x := range cs {
		x.ID = i
	}
	return all, cs
}

// pyNameSuite: names that mean something in Python, and messages that look
// like map entries.
func pyNameSuite(name string) *Suite {
	s := &Suite{}
	f := s.file(name, "names", "proto3")
	sub := f.msg("Sub")
	sub.f("v", KInt32, numR(&NumRules{K: KInt32, Gt: int32(1)}))
	kv := f.msg("KV")
	kv.f("key", KString, strR(&StrRules{MinLen: u64(1)}))
	kv.f("value", KString, strR(&StrRules{MaxLen: u64(2)}))
	kvm := f.msg("KVM")
	kvm.f("key", KString, nil)
	kvm.fm("value", sub, nil)
	names := []string{"from", "class", "in", "lambda", "None", "dur", "ts", "now", "item", "key", "p", "seen", "present", "validate", "re", "embedded", "url", "True", "print", "self", "len", "name"}
	for i, n := range names {
		m := f.msg(fmt.Sprintf("N%d", i))
		m.f(n, KInt32, numR(&NumRules{K: KInt32, Lt: int32(5)}))
		m2 := f.msg(fmt.Sprintf("P%d", i))
		m2.f("a"+n, KString, strR(&StrRules{MaxLen: u64(1)}))
		m2.fm(n, sub, msgR(false, i%2 == 0))
		m3 := f.msg(fmt.Sprintf("Q%d", i))
		o := m3.oneof("o_"+n, i%2 == 0)
		m3.f(n, KString, strR(&StrRules{MinLen: u64(1)})).in(o)
		m3.fm("other", sub, nil).in(o)
		m4 := f.msg(fmt.Sprintf("R%d", i))
		m4.rep(n, Type{K: KInt32}, repR(&RepRules{Max: u64(1), Items: numR(&NumRules{K: KInt32, NotIn: []any{int32(3)}})}))
		m4.mp("m"+n, KString, Type{K: KInt32}, mapR(&MapRules{Keys: strR(&StrRules{MinLen: u64(1)})}))
	}
	m := f.msg("Lists")
	m.rep("kv", Type{K: KMsg, Msg: kv}, nil)
	m.rep("kvm", Type{K: KMsg, Msg: kvm}, nil)
	m.rep("sub", Type{K: KMsg, Msg: sub}, nil)
	m.rep("kv_max", Type{K: KMsg, Msg: kv}, repR(&RepRules{Max: u64(2)}))
	m.mp("mkv", KString, Type{K: KMsg, Msg: kv}, nil)
	m.mp("mkeys", KString, Type{K: KMsg, Msg: sub}, mapR(&MapRules{Keys: strR(&StrRules{MinLen: u64(1)})}))
	m.fm("one", kv, nil)
	return s
}

func (c *CheckCtx) pyJudgeAll(s *Suite, cs []*Case, obs map[int]*PyObs) error {
	c.add("messages_types", countMsgs(s))
	c.add("rule_fields", countRuleFields(s))
	acc, rej := 0, 0
	for _, x := range cs {
		o := obs[x.ID]
		if o != nil && o.K == "B" {
			c.add("undecodable_cases_skipped", 1)
			continue
		}
		if d := judgePy(x, o); d != "" {
			if pyUnsettled(x.V) && o != nil && (o.K == "T" || o.K == "F") {
				c.add("unspecified_verdicts_not_judged", 1)
				continue
			}
			data := c.caseData(x)
			if o != nil {
				data["observed"] = o.K + " " + o.M
			}
			key := fmt.Sprintf("%s:%s:%s", x.M.Full, x.Why, firstTag(x))
			if k := pyDialect(x, o); k != "" {
				key = k
			}
			c.violation(key, d, data)
			continue
		}
		c.Evals++
		switch o.K {
		case "T":
			acc++
		case "F":
			rej++
		}
		e := (&Ctx{Now: SN{o.A / 1000000000, int32(o.A % 1000000000)}}).evalMsg(x.V)
		if e.must() || !e.may() {
			c.nontrivial(x.M.Full, x.Why, o.K, string(x.V.encode()))
		}
		if len(c.Samples) < 12 && (len(c.Samples)%2 == 0) == (o.K == "F") && x.Why != "empty" {
			c.sample(map[string]any{"message": x.M.Full, "value": trunc(x.V.String(), 300), "observed": o.K + " " + o.M, "expected": showExp(e)})
		}
	}
	c.add("observed_rejections", rej)
	c.add("observed_acceptances", acc)
	if acc == 0 || rej == 0 {
		return infra("vacuous run: %d acceptances, %d rejections", acc, rej)
	}
	return nil
}

func init() {
	checks["C17"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "the Go corpus restricted to what Python messages can hold, plus names Python reserves, run through the repository's Python validator in two orders, every case twice, and a sample in eight threads; a case is non-trivial when the reference semantics settles its verdict; distinct by message type, varied field, outcome and bytes"
		c.Assume = []string{"protobuf, Jinja2 and validate_email are stand-ins written for this check (the packages are not installed)"}
		g := newGen(c.Seed + 17)
		g.Rich = c.Rich
		s, cs := pySuites(c, g, "")
		b, err := c.W.buildPy("py", s)
		if err != nil {
			return err
		}
		obs, later, err := c.W.runPy(b, cs, "fwd")
		if err != nil {
			return err
		}
		if err := c.pyJudgeAll(s, cs, obs); err != nil {
			return err
		}
		// histories: another order in fresh interpreters, and every case again
		// after all others
		obs2, later2, err := c.W.runPy(b, cs, fmt.Sprintf("shuf:%d", c.Seed))
		if err != nil {
			return err
		}
		byID := map[int]*Case{}
		for _, x := range cs {
			byID[x.ID] = x
			o, p := obs[x.ID], obs2[x.ID]
			if o == nil || p == nil || o.K != p.K && !timed(x) {
				d := c.caseData(x)
				d["first_order"], d["second_order"] = o, p
				c.violation("history:"+x.M.Full+":"+x.Why, "the outcome depends on which messages were validated before", d)
			}
			c.Evals++
		}
		// eight threads per interpreter
		obs3, later3, err := c.W.runPy(b, cs, fmt.Sprintf("thr:%d", c.Seed))
		if err != nil {
			return err
		}
		for i, p := range obs3 {
			x, o := byID[i], obs[i]
			if o == nil || o.K != p.K && !timed(x) {
				d := c.caseData(x)
				d["alone"], d["threaded"] = o, p
				c.violation("threads:"+x.M.Full+":"+x.Why, "the outcome differs when other threads validate", d)
			}
			c.Evals++
		}
		c.add("cases_validated_by_two_of_eight_threads", len(obs3))
		if len(obs3) == 0 {
			return infra("no threaded observations")
		}
		for _, o := range append(append(later, later2...), later3...) {
			if timed(byID[o.I]) {
				continue
			}
			d := c.caseData(byID[o.I])
			d["observed"] = o.M
			c.violation("repeat:"+byID[o.I].M.Full+":"+byID[o.I].Why, "validating the message again gave another outcome: "+o.M, d)
		}
		c.add("orders", 2)
		c.add("validations_per_case_and_order", 2)
		return nil
	}}
}

// timed: the verdict may change between two calls.
func timed(x *Case) bool {
	return hasNow(x.M)
}
