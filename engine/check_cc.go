package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// ---- what the C++ generator leaves unimplemented ----

// ccThrows says whether validating v reaches a rule the C++ generator does not
// implement. Such a rule must raise UnimplementedException.
func ccThrows(v *MVal) bool {
	if v == nil || v.Nil || v.M.Disabled || v.M.Ignored || v.M.NoPGV {
		return false
	}
	for _, f := range v.M.Fields {
		_, set := v.F[f]
		if f.Oneof != nil && !set {
			continue
		}
		r := f.R
		if r == nil {
			r = &Rules{}
		}
		switch f.Label {
		case Repeated:
			rr := r.Rep
			if rr == nil {
				rr = &RepRules{}
			}
			l, _ := v.F[f].([]any)
			for _, it := range l {
				if ccThrowsVal(rr.Items, f.T, it) {
					return true
				}
			}
		case Map:
			mr := r.Map
			if mr == nil {
				mr = &MapRules{}
			}
			l, _ := v.F[f].([]MapEnt)
			if mr.NoSparse && !(mr.IgnoreEmpty && len(l) == 0) {
				return true
			}
			for _, e := range l {
				if ccThrowsVal(mr.Keys, Type{K: f.KeyK}, e.K) || ccThrowsVal(mr.Values, f.T, e.V) {
					return true
				}
			}
		default:
			var x any
			if f.T.K == KMsg {
				x = v.getSub(f)
			} else {
				x = v.get(f)
			}
			if ccThrowsVal(r, f.T, x) {
				return true
			}
		}
	}
	return false
}

func ccThrowsVal(r *Rules, t Type, x any) bool {
	if r == nil {
		r = &Rules{}
	}
	if t.K == KMsg {
		mv, _ := x.(*MVal)
		if r.Ts != nil {
			n := r.Ts
			return n.Const != nil || n.Lt != nil || n.Lte != nil || n.Gt != nil || n.Gte != nil || n.LtNow || n.GtNow || n.Within != nil
		}
		if mv == nil || mv.Nil || r.Any != nil || r.Dur != nil {
			return false
		}
		if r.Typ != "" && isWrapper(t.Msg) {
			return ccThrowsVal(r, Type{K: t.Msg.Fields[0].T.K}, mv.get(mv.M.Fields[0]))
		}
		if r.Msg != nil && r.Msg.Skip {
			return false
		}
		return ccThrows(mv)
	}
	if r.Str == nil {
		return false
	}
	n := 0
	switch y := x.(type) {
	case string:
		n = len(y)
	case []byte:
		n = len(y)
	}
	if r.Str.IgnoreEmpty && n == 0 {
		return false
	}
	switch r.Str.WK {
	case "email", "uri", "uri_ref":
		return true
	case "ip", "ipv4", "ipv6":
		return r.Str.Bytes
	}
	return false
}

// ---- building ----

type CCBuild struct {
	Bin, Dir string
}

func ccClass(m *Msg) string {
	n := m.Name
	for p := m.Parent; p != nil; p = p.Parent {
		n = p.Name + "_" + n
	}
	return "::" + strings.ReplaceAll(m.File.Pkg, ".", "::") + "::" + n
}

var ccModes = map[string][]string{
	"plain": {"-O0"},
	"asan":  {"-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"},
	"tsan":  {"-O1", "-g1", "-fsanitize=thread"},
}

// genCC generates the C++ outputs of s into dir.
func (w *Work) genCC(src, dir string, s *Suite) error {
	os.MkdirAll(dir, 0o755)
	var all, pgv []string
	for _, f := range s.Files {
		all = append(all, f.Path)
		if !f.NoPGV {
			pgv = append(pgv, f.Path)
		}
	}
	r, err := w.protoc(src, []string{"--cpp_out=" + dir}, append([]string{"validate/validate.proto"}, all...))
	if err != nil {
		return err
	}
	if r.code != 0 {
		return infra("protoc --cpp_out: %s", tail(r.err, 2000))
	}
	r, err = w.protoc(src, []string{"--plugin=protoc-gen-validate=" + w.Plugin, "--validate_out=lang=cc:" + dir}, pgv)
	if err != nil {
		return err
	}
	if r.code != 0 {
		return BrokenError{"generation", "protoc --validate_out lang=cc fails: " + tail(r.err, 2000)}
	}
	for _, p := range pgv {
		for _, e := range []string{".pb.validate.h", ".pb.validate.cc"} {
			if _, err := os.Stat(filepath.Join(dir, strings.TrimSuffix(p, ".proto")+e)); err != nil {
				return BrokenError{"generation", "no output " + strings.TrimSuffix(p, ".proto") + e}
			}
		}
	}
	return nil
}

// buildCC generates s and compiles one driver per mode.
func (w *Work) buildCC(name string, s *Suite, modes ...string) (map[string]*CCBuild, error) {
	dir := filepath.Join(w.Dir, name)
	src := filepath.Join(dir, "src")
	if _, err := w.writeProtos(src, s); err != nil {
		return nil, err
	}
	if err := w.genCC(src, dir, s); err != nil {
		return nil, err
	}
	h, _ := drivers.ReadFile("drivers/cc_drv_h.txt")
	writeFile(filepath.Join(dir, "drv.h"), string(h))
	d, _ := drivers.ReadFile("drivers/cc_driver.txt")
	writeFile(filepath.Join(dir, "driver.cc"), string(d))
	var regs []string
	all := "#include \"drv.h\"\n"
	calls := ""
	const perReg = 8
	for i := 0; i < len(s.Files); i += perReg {
		var b, body strings.Builder
		b.WriteString("#include \"drv.h\"\n")
		for _, f := range s.Files[i:min(i+perReg, len(s.Files))] {
			if f.NoPGV {
				continue
			}
			fmt.Fprintf(&b, "#include \"%s.pb.validate.h\"\n", strings.TrimSuffix(f.Path, ".proto"))
			for _, m := range f.allMsgs() {
				if !m.Ignored {
					fmt.Fprintf(&body, "  reg<%s>();\n", ccClass(m))
					for _, fl := range m.Fields {
						if d, ok := fl.Default.(string); ok && d != "" {
							// libprotobuf makes the default on first use, with atomics the
							// race detector does not see in an uninstrumented library
							fmt.Fprintf(&body, "  { %s t; volatile size_t n = t.%s().size(); (void)n; }\n", ccClass(m), fl.Name)
						}
					}
				}
			}
		}
		fmt.Fprintf(&b, "void register_%d() {\n%s}\n", i, body.String())
		p := fmt.Sprintf("reg_%d.cc", i)
		writeFile(filepath.Join(dir, p), b.String())
		regs = append(regs, p)
		all += fmt.Sprintf("void register_%d();\n", i)
		calls += fmt.Sprintf("  register_%d();\n", i)
	}
	writeFile(filepath.Join(dir, "reg_all.cc"), all+"void registerAll() {\n"+calls+"}\n")

	type job struct {
		src, obj string
		flags    []string
		pch      string
		gen      bool
	}
	var jobs []job
	pchs := map[string]string{}
	var mu sync.Mutex
	if err := parallel(len(modes)+1, func(i int) error {
		mode := "plain"
		if i > 0 {
			mode = modes[i-1]
			if mode == "plain" {
				return nil
			}
		}
		pch := filepath.Join(dir, "pch_"+mode+".h")
		writeFile(pch, ccPCH)
		r, err := w.run(dir, 5*time.Minute, nil, nil, "clang++", append(append([]string{"-std=c++14", "-w"}, ccModes[mode]...), "-x", "c++-header", pch, "-o", pch+".pch")...)
		if err != nil || r.code != 0 {
			return infra("precompiled header: %v %s", err, r.err)
		}
		mu.Lock()
		pchs[mode] = pch
		mu.Unlock()
		return nil
	}); err != nil {
		return nil, err
	}
	var common []string
	for _, f := range s.Files {
		b := strings.TrimSuffix(f.Path, ".proto")
		o := strings.ReplaceAll(b, "/", "_") + ".pb.o"
		jobs = append(jobs, job{b + ".pb.cc", o, ccModes["plain"], pchs["plain"], false})
		common = append(common, o)
	}
	jobs = append(jobs, job{"validate/validate.pb.cc", "validate_pb.o", ccModes["plain"], pchs["plain"], false})
	common = append(common, "validate_pb.o")
	objs := map[string][]string{}
	for _, mode := range modes {
		add := func(src string, gen bool) {
			o := strings.TrimSuffix(strings.ReplaceAll(src, "/", "_"), ".cc") + "." + mode + ".o"
			jobs = append(jobs, job{src, o, ccModes[mode], pchs[mode], gen})
			objs[mode] = append(objs[mode], o)
		}
		for _, f := range s.Files {
			if !f.NoPGV {
				add(strings.TrimSuffix(f.Path, ".proto")+".pb.validate.cc", true)
			}
		}
		for _, r := range regs {
			add(r, true)
		}
		add("reg_all.cc", false)
		add("driver.cc", false)
	}
	// the large ones first
	big := make([]job, 0, len(jobs))
	for _, g := range []bool{true, false} {
		for _, j := range jobs {
			if strings.HasSuffix(j.src, ".pb.validate.cc") == g {
				big = append(big, j)
			}
		}
	}
	jobs = big
	fails := make([]string, len(jobs))
	err := parallel(len(jobs), func(i int) error {
		j := jobs[i]
		args := append([]string{"-std=c++14", "-w", "-ferror-limit=3"}, j.flags...)
		r, err := w.run(dir, 10*time.Minute, nil, nil, "clang++", append(args, "-include-pch", j.pch+".pch", "-I.", "-I"+w.Repo, "-c", j.src, "-o", j.obj)...)
		if err != nil {
			return err
		}
		if r.timeout {
			return infra("clang++ timed out on %s", j.src)
		}
		if r.code != 0 {
			if !j.gen || strings.Contains(r.err, "clang") && strings.Contains(r.err, "Killed") {
				return infra("compiling %s: %s", j.src, tail(r.err, 3000))
			}
			fails[i] = j.src + ": " + trunc(r.err, 2500)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, f := range fails {
		if f != "" {
			return nil, BrokenError{"compile", "generated C++ code does not compile: " + f}
		}
	}
	out := map[string]*CCBuild{}
	for _, mode := range modes {
		bin := filepath.Join(dir, "drv_"+mode)
		args := append(append([]string{}, ccModes[mode]...), "-o", bin)
		args = append(append(args, objs[mode]...), common...)
		r, err := w.run(dir, 5*time.Minute, nil, nil, "clang++", append(args, "-lprotobuf", "-lre2", "-lpthread")...)
		if err != nil {
			return nil, err
		}
		if r.code != 0 {
			if strings.Contains(r.err, "pb.validate") || strings.Contains(r.err, "Validate(") {
				return nil, BrokenError{"link", "generated C++ code does not link: " + trunc(r.err, 3000)}
			}
			return nil, infra("linking: %s", tail(r.err, 3000))
		}
		out[mode] = &CCBuild{Bin: bin, Dir: dir}
	}
	return out, nil
}

// ---- running ----

type CCObs struct {
	Code byte // T F U X, B (undecodable), D N (not found)
	Err  string
	Note string
}

func hasNil(v *MVal) bool {
	var n []string
	v.nils("", &n)
	return len(n) > 0
}

func writeCCCases(path string, cs []*Case) error {
	var b bytes.Buffer
	u := func(n int) { b.Write(binary.LittleEndian.AppendUint32(nil, uint32(n))) }
	for _, c := range cs {
		u(c.ID)
		u(len(c.M.Full))
		b.WriteString(c.M.Full)
		e := c.V.encode()
		u(len(e))
		b.Write(e)
	}
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		return infra("%v", err)
	}
	return nil
}

type ccCrash struct {
	ID, Variant int
	Text        string
}

var ccSanEnv = []string{"ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=88:detect_stack_use_after_return=0", "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=88", "TSAN_OPTIONS=halt_on_error=0:exitcode=66:report_thread_leaks=0"}

func (w *Work) runCC(b *CCBuild, cs []*Case, deep bool) (map[int]*CCObs, []ccCrash, int, error) {
	n := 8
	if len(cs) < 800 {
		n = 1
	}
	res := make([]map[int]*CCObs, n)
	crash := make([]*ccCrash, n)
	hostile := make([]int, n)
	err := parallel(n, func(sh int) error {
		var part []*Case
		for i := sh; i < len(cs); i += n {
			part = append(part, cs[i])
		}
		tag := fmt.Sprintf("%s.%d", filepath.Base(b.Bin), sh)
		cf, of, pf := filepath.Join(b.Dir, tag+".cases"), filepath.Join(b.Dir, tag+".obs"), filepath.Join(b.Dir, tag+".progress")
		if err := writeCCCases(cf, part); err != nil {
			return err
		}
		mode := "run"
		if deep {
			mode = "deep"
		}
		r, err := w.run(b.Dir, 6*time.Minute, ccSanEnv, nil, b.Bin, mode, cf, of, pf)
		if err != nil {
			return err
		}
		if r.code == 3 {
			return infra("C++ driver: %s", r.err)
		}
		if r.code != 0 || !strings.Contains(r.out, "DRV-OK") {
			c := &ccCrash{ID: -1, Text: fmt.Sprintf("exit %d, timeout %v: %s", r.code, r.timeout, trunc(r.err, 3000))}
			if p, err := os.ReadFile(pf); err == nil && len(p) >= 8 {
				c.ID, c.Variant = int(binary.LittleEndian.Uint32(p)), int(int32(binary.LittleEndian.Uint32(p[4:])))
			}
			crash[sh] = c
		}
		var k, v int
		fmt.Sscanf(r.out, "DRV-OK %d hostile_values %d", &k, &v)
		hostile[sh] = v
		res[sh] = map[int]*CCObs{}
		raw, _ := os.ReadFile(of)
		for _, l := range strings.Split(string(raw), "\n") {
			p := strings.Split(l, "\t")
			if len(p) != 4 || p[1] == "" {
				continue
			}
			var id int
			fmt.Sscan(p[0], &id)
			e, _ := hex.DecodeString(p[2])
			note, _ := hex.DecodeString(p[3])
			res[sh][id] = &CCObs{p[1][0], string(e), string(note)}
		}
		os.Remove(cf)
		os.Remove(of)
		os.Remove(pf)
		return nil
	})
	if err != nil {
		return nil, nil, 0, err
	}
	out := map[int]*CCObs{}
	var crs []ccCrash
	h := 0
	for i := range res {
		for k, v := range res[i] {
			out[k] = v
		}
		if crash[i] != nil {
			crs = append(crs, *crash[i])
		}
		h += hostile[i]
	}
	return out, crs, h, nil
}

// ---- judging ----

// ccUnsettled: rule and value combinations whose C++ verdict the documentation
// leaves open: strings that are not UTF-8, patterns not anchored at both ends,
// and patterns applied to bytes that are not UTF-8.
func ccUnsettled(v *MVal) bool {
	bad := false
	var walk func(v *MVal)
	val := func(r *Rules, t Type, x any) {
		if r != nil && r.Str != nil && r.Str.Pattern != nil {
			s := ""
			switch y := x.(type) {
			case string:
				s = y
			case []byte:
				s = string(y)
			case *MVal:
				if y != nil && !y.Nil && isWrapper(y.M) {
					switch z := y.get(y.M.Fields[0]).(type) {
					case string:
						s = z
					case []byte:
						s = string(z)
					}
				}
			}
			p := *r.Str.Pattern
			search := regexp.MustCompile(p).MatchString(s)
			full := regexp.MustCompile(`^(?:` + p + `)\z`)
			full.Longest()
			if search != full.MatchString(s) || !utf8.ValidString(s) {
				bad = true
			}
		}
		if y, ok := x.(string); ok && !utf8.ValidString(y) {
			bad = true
		}
		if mv, ok := x.(*MVal); ok {
			walk(mv)
		}
	}
	walk = func(v *MVal) {
		if v == nil || v.Nil {
			return
		}
		for _, f := range v.M.Fields {
			r := f.R
			if r == nil {
				r = &Rules{}
			}
			switch f.Label {
			case Repeated:
				l, _ := v.F[f].([]any)
				for _, x := range l {
					if r.Rep != nil {
						val(r.Rep.Items, f.T, x)
					} else {
						val(nil, f.T, x)
					}
				}
			case Map:
				l, _ := v.F[f].([]MapEnt)
				for _, e := range l {
					if r.Map != nil {
						val(r.Map.Keys, Type{K: f.KeyK}, e.K)
						val(r.Map.Values, f.T, e.V)
					} else {
						val(nil, f.T, e.V)
					}
				}
			default:
				if f.T.K == KMsg {
					val(r, f.T, v.getSub(f))
				} else if _, set := v.F[f]; set || f.Oneof == nil {
					val(r, f.T, v.get(f))
				}
			}
		}
	}
	walk(v)
	return bad
}

func judgeCC(c *Case, o *CCObs) string {
	if o == nil {
		return "no observation recorded for the case"
	}
	if o.Code == 'B' {
		return ""
	}
	if o.Code == 'D' || o.Code == 'N' {
		return "no generated Validate for " + c.M.Full
	}
	if o.Note != "" {
		return o.Note
	}
	e := (&Ctx{Now: c.now()}).evalMsg(c.V)
	throws := ccThrows(c.V)
	switch o.Code {
	case 'T':
		if throws {
			return "Validate accepted although an unimplemented rule applies; expected UnimplementedException"
		}
		if e.must() {
			return "Validate accepted a message that violates its rules: " + showExp(e)
		}
		if o.Err != "" {
			return "Validate accepted but wrote an error message: " + o.Err
		}
	case 'U':
		if !throws {
			return "unexpected UnimplementedException: " + o.Err
		}
	case 'F':
		if !e.may() {
			return "Validate rejected a conforming message: " + o.Err
		}
		if !ccNames(e, o.Err) {
			return fmt.Sprintf("the error %q names none of the violated fields %s", o.Err, showExp(e))
		}
	default:
		return "exception: " + o.Err
	}
	return ""
}

var ccIdx = regexp.MustCompile(`\[(true|false)\]$`)

// ccNames: does the message name the type and one of the offending fields?
func ccNames(e *Expect, msg string) bool {
	for _, v := range e.V {
		if v.Tag == "oneof_required" {
			for _, o := range e.M.Oneofs {
				if goCamel(o.Name) == v.Field && strings.Contains(msg, o.Name) {
					return true
				}
			}
			continue
		}
		fld := ccIdx.ReplaceAllStringFunc(v.Field, func(s string) string {
			if s == "[true]" {
				return "[1]"
			}
			return "[0]"
		})
		want := e.M.Name + "ValidationError." + fld + ": "
		if v.Key {
			want = "key for " + want
		}
		i := strings.Index(msg, want)
		if i < 0 || i > len("invalid key for ") {
			continue
		}
		if v.Nested != nil && !ccNames(v.Nested, msg[i+len(want):]) && !ccNamesIn(v.Nested, msg[i+len(want):]) {
			continue
		}
		return true
	}
	return false
}

func ccNamesIn(e *Expect, msg string) bool {
	if i := strings.Index(msg, "caused by "); i >= 0 {
		return ccNames(e, msg[i+len("caused by "):])
	}
	return false
}

func (c *CheckCtx) ccJudgeAll(s *Suite, cs []*Case, obs map[int]*CCObs) error {
	c.add("messages_types", countMsgs(s))
	c.add("rule_fields", countRuleFields(s))
	acc, rej, thr := 0, 0, 0
	for _, x := range cs {
		o := obs[x.ID]
		if o != nil && o.Code == 'B' {
			c.add("undecodable_cases_skipped", 1)
			continue
		}
		if d := judgeCC(x, o); d != "" {
			if ccUnsettled(x.V) && o != nil && (o.Code == 'T' || o.Code == 'F') && o.Note == "" {
				c.add("unspecified_verdicts_not_judged", 1)
				continue
			}
			key := fmt.Sprintf("%s:%s:%s", x.M.Full, x.Why, firstTag(x))
			data := c.caseData(x)
			if o != nil {
				data["observed"] = string(o.Code) + " " + o.Err
			}
			c.violation(key, d, data)
			continue
		}
		c.Evals++
		switch o.Code {
		case 'T':
			acc++
		case 'F':
			rej++
		case 'U':
			thr++
		}
		e := (&Ctx{Now: x.now()}).evalMsg(x.V)
		if e.must() || !e.may() {
			c.nontrivial(x.M.Full, x.Why, string(o.Code), string(x.V.encode()))
		}
		if len(c.Samples) < 12 && (len(c.Samples)%2 == 0) == (o.Code == 'F') && x.Why != "empty" {
			c.sample(map[string]any{"message": x.M.Full, "value": trunc(x.V.String(), 300), "observed": string(o.Code) + " " + o.Err, "expected": showExp(e)})
		}
	}
	c.add("observed_rejections", rej)
	c.add("observed_acceptances", acc)
	c.add("observed_unimplemented", thr)
	if acc == 0 || rej == 0 {
		return infra("vacuous run: %d acceptances, %d rejections", acc, rej)
	}
	return nil
}

// ccSuites is the C++ part of the corpus: the Go suites, with fewer profiles.
func ccSuites(c *CheckCtx, g *Gen, tag string, small bool) (*Suite, []*Case) {
	all := &Suite{}
	var cs []*Case
	take := func(s *Suite, x []*Case) {
		all.Files = append(all.Files, s.Files...)
		for _, y := range x {
			if !hasNil(y.V) {
				cs = append(cs, y)
			}
		}
	}
	g.NoNil = true
	g.PerFile = 14
	mix := 8 + 30*c.Rich
	prof := 2 + 3*c.Rich
	if small {
		prof, mix = 1, 4+8*c.Rich
	}
	s := numSuite(g, "cnum"+tag, prof)
	take(s, s.cases(g, 0, mix))
	s = strSuite(g, "cstr"+tag, strOpts{})
	take(s, s.cases(g, 0, mix))
	s = fmtSuite(g, "cwkf"+tag)
	take(s, s.cases(g, 1, mix))
	s = contSuite(g, "ccont"+tag)
	take(s, s.cases(g, 1, mix))
	s = msgSuite(g, "cmsg"+tag)
	take(s, append(s.cases(g, 2, mix), nodeCases(g, s, 200+1000*c.Rich)...))
	s = wktSuite(g, "cwkt"+tag)
	take(s, s.cases(g, 0, mix))
	if small {
		all.Files, cs = thin(all, cs, int(c.Seed), 5-3*c.Rich)
	}
	for i, x := range cs {
		x.ID = i
	}
	for _, f := range all.Files {
		f.Opts = append(f.Opts, "optimize_for = CODE_SIZE") // far less of protoc's own code to compile
	}
	return all, cs
}

// thin keeps every k-th file that no other file imports.
func thin(s *Suite, cs []*Case, seed, k int) ([]*File, []*Case) {
	if k <= 1 {
		return s.Files, cs
	}
	used := map[string]bool{}
	for _, f := range s.Files {
		for _, i := range f.imports() {
			used[i] = true
		}
	}
	keep := map[*File]bool{}
	var out []*File
	for i, f := range s.Files {
		n := k
		if strings.Contains(f.Path, "cwkf") {
			n = 1 // the hand-written string helpers
		} else if strings.Contains(f.Path, "cstr") {
			n = (k + 1) / 2
		}
		if used[f.Path] || f.NoPGV || (i+seed)%n == 0 || i+1 == len(s.Files) {
			keep[f] = true
			out = append(out, f)
		}
	}
	var oc []*Case
	for _, c := range cs {
		if keep[c.M.File] {
			oc = append(oc, c)
		}
	}
	return out, oc
}

const ccRule = "the Go corpus restricted to what C++ messages can hold (no nil elements), compiled with clang++ and run through the generated Validate; a case is non-trivial when the reference semantics settles its verdict; distinct by message type, varied field, outcome and bytes."

func init() {
	checks["C09"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = ccRule
		c.Assume = []string{"strings that are not UTF-8, a pattern not anchored at both ends and a pattern on bytes that are not UTF-8 are judged only where every reading agrees", "protoc, libprotobuf, RE2 and clang++ are trusted"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed + 9)
		g.Rich = c.Rich
		s, cs := ccSuites(c, g, "", false)
		b, err := c.W.buildCC("cc", s, "plain")
		if err != nil {
			return c.broken(err)
		}
		obs, crashes, _, err := c.W.runCC(b["plain"], cs, false)
		if err != nil {
			return err
		}
		for _, x := range crashes {
			c.ccCrashViol(cs, x, "C09")
		}
		if len(crashes) > 0 {
			return nil
		}
		return c.ccJudgeAll(s, cs, obs)
	}}
}

func (c *CheckCtx) ccCrashViol(cs []*Case, x ccCrash, id string) {
	var data map[string]any
	what := "unknown case"
	for _, y := range cs {
		if y.ID == x.ID {
			data = c.caseData(y)
			what = y.M.Full + " " + y.Why
		}
	}
	if data != nil {
		data["hostile_variant"], data["report"] = x.Variant, x.Text
	}
	c.violation(fmt.Sprintf("%s:crash:%s", id, what), fmt.Sprintf("the validator crashed or was stopped by a sanitizer on %s (variant %d): %s", what, x.Variant, x.Text), data)
}

func init() {
	checks["C10"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = ccRule + " Under AddressSanitizer and UndefinedBehaviorSanitizer every case is validated twice, then in six hostile variants (truncated and invalid UTF-8 in exactly-sized buffers, embedded NULs, random bytes, 70 kB strings, extreme integers and undeclared enum numbers); under ThreadSanitizer 8 threads validate the same messages from process start."
		c.Assume = []string{"libprotobuf and RE2 are not instrumented: errors inside them are seen only if they crash", "schedules are those observed"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed + 10)
		g.Rich = c.Rich
		s, cs := ccSuites(c, g, "s", true)
		b, err := c.W.buildCC("ccs", s, "asan", "tsan")
		if err != nil {
			return c.broken(err)
		}
		obs, crashes, hostile, err := c.W.runCC(b["asan"], cs, true)
		if err != nil {
			return err
		}
		for _, x := range crashes {
			c.ccCrashViol(cs, x, "C10")
		}
		c.add("hostile_values", hostile)
		if len(crashes) == 0 {
			c.add("sanitized_validations", 2*len(cs))
			for _, x := range cs {
				o := obs[x.ID]
				if o == nil || o.Code == 'B' {
					continue
				}
				c.Evals++
				c.nontrivial(x.M.Full, x.Why, string(o.Code), string(x.V.encode()))
				if o.Note != "" || o.Code == 'X' {
					c.violation(fmt.Sprintf("C10:%s:%s", x.M.Full, x.Why), o.Note+" "+o.Err, c.caseData(x))
				}
				if len(c.Samples) < 10 && x.ID%97 == 0 {
					c.sample(map[string]any{"message": x.M.Full, "value": trunc(x.V.String(), 200), "observed": string(o.Code) + " " + o.Err})
				}
			}
		}
		// concurrency
		per := map[*Msg]int{}
		var pick []*Case
		for _, j := range rand.New(rand.NewSource(c.Seed)).Perm(len(cs)) {
			if x := cs[j]; per[x.M] < 3+6*c.Rich && !strings.HasPrefix(x.Why, "chain") {
				per[x.M]++
				pick = append(pick, x)
			}
		}
		cf := filepath.Join(b["tsan"].Dir, "conc.cases")
		if err := writeCCCases(cf, pick); err != nil {
			return err
		}
		// libstdc++ fills the narrowing cache of its locale facet without locks
		supp := filepath.Join(b["tsan"].Dir, "tsan.supp")
		writeFile(supp, "race:bits/locale_facets.h\n")
		env := append([]string{}, ccSanEnv...)
		for i, e := range env {
			if strings.HasPrefix(e, "TSAN_OPTIONS=") {
				env[i] = e + ":suppressions=" + supp
			}
		}
		n := 0
		for round := 0; round < 2+4*c.Rich; round++ {
			r, err := c.W.run(b["tsan"].Dir, 5*time.Minute, env, nil, b["tsan"].Bin, "conc", cf, "8", fmt.Sprint(1+round))
			if err != nil {
				return err
			}
			if i := strings.Index(r.err, "WARNING: ThreadSanitizer"); i >= 0 {
				c.violation("C10:race", trunc(r.err[i:], 4000), nil)
				break
			}
			if !strings.Contains(r.out, "DRV-OK") {
				c.violation("C10:concurrent-crash", fmt.Sprintf("exit %d, timeout %v: %s", r.code, r.timeout, trunc(r.err, 3000)), nil)
				break
			}
			for _, l := range strings.Split(r.out, "\n") {
				if strings.HasPrefix(l, "CONC-DIFF ") {
					c.violation("C10:concurrent:"+trunc(l, 30), l, nil)
				}
			}
			var k int
			fmt.Sscanf(r.out[strings.Index(r.out, "DRV-OK"):], "DRV-OK %d", &k)
			n += k
		}
		c.add("concurrent_validations_under_tsan", n)
		return nil
	}}
}
