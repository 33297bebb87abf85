package main

import (
	"bufio"
	"bytes"
	"context"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

//go:embed all:drivers
var drivers embed.FS

// InfraError is a failure of the machinery, never a verdict.
type InfraError struct{ msg string }

func (e InfraError) Error() string { return e.msg }

func infra(f string, a ...any) error { return InfraError{fmt.Sprintf(f, a...)} }

// BrokenError: the code under test fails at something it does on the unchanged tree.
type BrokenError struct{ Stage, Msg string }

func (e BrokenError) Error() string { return e.Stage + ": " + e.Msg }

type Work struct {
	Dir, Repo, Verif string
	Plugin, PGGo     string
	Env              []string
	logf             *os.File
	mu               sync.Mutex
}

func newWork(verif, repo, id string) (*Work, error) {
	dir := filepath.Join(verif, ".work", id)
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, infra("%v", err)
	}
	w := &Work{Dir: dir, Repo: repo, Verif: verif}
	cache := os.Getenv("VERIF_GOCACHE")
	if cache == "" {
		cache = filepath.Join(verif, ".cache", "go-build")
	}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") || strings.HasPrefix(e, "CGO_") || strings.HasPrefix(e, "DEBUG_PGV") {
			continue
		}
		w.Env = append(w.Env, e)
	}
	w.Env = append(w.Env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOCACHE="+cache, "GOMODCACHE=/root/go/pkg/mod", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOWORK=off", "CGO_ENABLED=0")
	w.logf, _ = os.Create(filepath.Join(dir, "log.txt"))
	return w, nil
}

func (w *Work) log(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	fmt.Fprintf(w.logf, f+"\n", a...)
}

type cmdRes struct {
	out, err string
	code     int
	timeout  bool
}

func (w *Work) run(dir string, timeout time.Duration, env []string, stdin []byte, name string, args ...string) (cmdRes, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = append(append([]string{}, w.Env...), env...)
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 5 * time.Second
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	t0 := time.Now()
	err := c.Run()
	r := cmdRes{out: o.String(), err: e.String()}
	w.log("$ (cd %s) %s %s  [%.1fs]", dir, name, trunc(strings.Join(args, " "), 300), time.Since(t0).Seconds())
	if ctx.Err() != nil {
		r.timeout = true
		r.code = -1
		return r, nil
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.code = ee.ExitCode()
			if r.code == 0 {
				r.code = -1
			}
			w.log("  exit %d: %s", r.code, trunc(r.err, 2000))
			return r, nil
		}
		return r, infra("%s: %v", name, err)
	}
	return r, nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// buildPlugin builds the plugin (and protoc-gen-go) from the repository's tree.
func (w *Work) buildPlugin() error {
	w.Plugin = filepath.Join(w.Dir, "bin", "protoc-gen-validate")
	w.PGGo = filepath.Join(w.Dir, "bin", "protoc-gen-go")
	r, err := w.run(w.Repo, 10*time.Minute, []string{"GOFLAGS=-mod=readonly"}, nil, "go", "build", "-buildvcs=false", "-o", w.Plugin, ".")
	if err != nil {
		return err
	}
	if r.code != 0 {
		return infra("building the plugin: %s", tail(r.err, 3000))
	}
	r, err = w.run(w.Repo, 10*time.Minute, []string{"GOFLAGS=-mod=readonly"}, nil, "go", "build", "-buildvcs=false", "-o", w.PGGo, "google.golang.org/protobuf/cmd/protoc-gen-go")
	if err != nil {
		return err
	}
	if r.code != 0 {
		return infra("building protoc-gen-go: %s", tail(r.err, 3000))
	}
	return nil
}

func (w *Work) writeProtos(dir string, s *Suite) ([]string, error) {
	var paths []string
	for _, f := range s.Files {
		p := filepath.Join(dir, f.Path)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, infra("%v", err)
		}
		if err := os.WriteFile(p, []byte(f.proto()), 0o644); err != nil {
			return nil, infra("%v", err)
		}
		paths = append(paths, f.Path)
	}
	return paths, nil
}

// protoc runs protoc on files grouped by package directory.
func (w *Work) protoc(src string, args []string, files []string) (cmdRes, error) {
	a := append([]string{"-I", src, "-I", w.Repo}, args...)
	return w.run(src, 5*time.Minute, nil, nil, "protoc", append(a, files...)...)
}

// GoBuild is a compiled Go driver for a set of suites.
type GoBuild struct {
	Bin string
	Dir string
}

func byPkg(s *Suite) map[string][]*File {
	m := map[string][]*File{}
	for _, f := range s.Files {
		m[filepath.Dir(f.Path)] = append(m[filepath.Dir(f.Path)], f)
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// genGo runs protoc for the Go outputs. A failure is the plugin's.
func (w *Work) genGo(src, out string, s *Suite) error {
	os.MkdirAll(out, 0o755)
	pk := byPkg(s)
	for _, d := range sortedKeys(pk) {
		var all, pgv []string
		for _, f := range pk[d] {
			all = append(all, f.Path)
			if !f.NoPGV {
				pgv = append(pgv, f.Path)
			}
		}
		r, err := w.protoc(src, []string{"--plugin=protoc-gen-go=" + w.PGGo, "--go_out=" + out, "--go_opt=paths=source_relative"}, all)
		if err != nil {
			return err
		}
		if r.code != 0 {
			return infra("protoc --go_out %s: %s", d, tail(r.err, 2000))
		}
		if len(pgv) == 0 {
			continue
		}
		r, err = w.protoc(src, []string{"--plugin=protoc-gen-validate=" + w.Plugin, "--validate_out=paths=source_relative,lang=go:" + out}, pgv)
		if err != nil {
			return err
		}
		if r.code != 0 {
			return BrokenError{"generation", fmt.Sprintf("protoc --validate_out lang=go fails on %s: %s", d, tail(r.err, 2000))}
		}
		for _, p := range pgv {
			g := strings.TrimSuffix(p, ".proto") + ".pb.validate.go"
			if _, err := os.Stat(filepath.Join(out, g)); err != nil {
				return BrokenError{"generation", "no output " + g}
			}
		}
	}
	return nil
}

var protobufReq = regexp.MustCompile(`google.golang.org/protobuf (v\S+)`)

func (w *Work) goModule(dir string) error {
	gm, err := os.ReadFile(filepath.Join(w.Repo, "go.mod"))
	if err != nil {
		return infra("%v", err)
	}
	m := protobufReq.FindSubmatch(gm)
	if m == nil {
		return infra("no protobuf requirement in go.mod")
	}
	mod := fmt.Sprintf("module vgen\n\ngo 1.25\n\nrequire (\n\tgithub.com/envoyproxy/protoc-gen-validate v0.0.0\n\tgoogle.golang.org/protobuf %s\n)\n\nreplace github.com/envoyproxy/protoc-gen-validate => %s\n", m[1], w.Repo)
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(mod), 0o644); err != nil {
		return infra("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(w.Repo, "go.sum"))
	if err != nil {
		return infra("%v", err)
	}
	return os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

// legacyGo is a validator as versions before ValidateAll generated it.
const legacyGo = `package %s

import "fmt"

type %[2]sValidationError struct{ field, reason string }

func (e %[2]sValidationError) Field() string     { return e.field }
func (e %[2]sValidationError) Reason() string    { return e.reason }
func (e %[2]sValidationError) Cause() error      { return nil }
func (e %[2]sValidationError) Key() bool         { return false }
func (e %[2]sValidationError) ErrorName() string { return "%[2]sValidationError" }
func (e %[2]sValidationError) Error() string {
	return fmt.Sprintf("invalid %[2]s.%%s: %%s", e.field, e.reason)
}

func (m *%[2]s) Validate() error {
	if m == nil {
		return nil
	}
	if m.GetAmount() <= 10 {
		return %[2]sValidationError{"Amount", "value must be greater than 10"}
	}
	return nil
}
`

// buildGo generates, writes the driver and compiles.
func (w *Work) buildGo(name string, s *Suite, race bool) (*GoBuild, error) {
	dir := filepath.Join(w.Dir, name)
	src := filepath.Join(dir, "src")
	if _, err := w.writeProtos(src, s); err != nil {
		return nil, err
	}
	if err := w.genGo(src, dir, s); err != nil {
		return nil, err
	}
	if err := w.goModule(dir); err != nil {
		return nil, err
	}
	for _, f := range s.Files {
		for _, m := range f.Msgs {
			if m.GoLegacy {
				p := filepath.Join(dir, filepath.Dir(f.Path), "legacy.go")
				if err := os.WriteFile(p, []byte(fmt.Sprintf(legacyGo, filepath.Base(filepath.Dir(f.Path)), m.GoName)), 0o644); err != nil {
					return nil, infra("%v", err)
				}
			}
		}
	}
	var imp strings.Builder
	imp.WriteString("package drv\n\nimport (\n")
	for _, d := range sortedKeys(byPkg(s)) {
		fmt.Fprintf(&imp, "\t_ \"vgen/%s\"\n", d)
	}
	imp.WriteString("\t_ \"google.golang.org/protobuf/types/known/anypb\"\n)\n")
	drv := filepath.Join(dir, "drv")
	os.MkdirAll(drv, 0o755)
	os.WriteFile(filepath.Join(drv, "imports_test.go"), []byte(imp.String()), 0o644)
	b, _ := drivers.ReadFile("drivers/go_driver.txt")
	os.WriteFile(filepath.Join(drv, "driver_test.go"), b, 0o644)
	bin := filepath.Join(dir, "drv.test")
	args := []string{"test", "-c", "-vet=off", "-buildvcs=false", "-gcflags=-e", "-o", bin}
	var env []string
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	r, err := w.run(dir, 8*time.Minute, env, nil, "go", append(args, "./drv")...)
	if err != nil {
		return nil, err
	}
	if r.code != 0 {
		if strings.Contains(r.err, ".pb.validate.go:") {
			return nil, BrokenError{"compile", "generated Go code does not compile: " + trunc(r.err, 3000)}
		}
		return nil, infra("compiling the Go driver: %s", tail(r.err, 4000))
	}
	return &GoBuild{Bin: bin, Dir: dir}, nil
}

type ObsErr struct {
	T   string    `json:"t"`
	Has bool      `json:"h"`
	F   string    `json:"f"`
	R   string    `json:"r"`
	K   bool      `json:"k"`
	N   string    `json:"n"`
	S   string    `json:"s"`
	C   *ObsErr   `json:"c"`
	M   []*ObsErr `json:"m"`
	IsM bool      `json:"im"`
}

type Obs struct {
	I   int     `json:"i"`
	V   *ObsErr `json:"v"`
	A   *ObsErr `json:"a"`
	P   string  `json:"p"`
	Mut string  `json:"mut"`
	ND  string  `json:"nd"`
	Err string  `json:"err"`
	NoV bool    `json:"nov"`
	Now int64   `json:"now"`
}

func writeCases(path string, cs []*Case) error {
	f, err := os.Create(path)
	if err != nil {
		return infra("%v", err)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	for _, c := range cs {
		bw.Write(c.line())
	}
	if err := bw.Flush(); err != nil {
		return infra("%v", err)
	}
	return f.Close()
}

// runGo runs all cases, split over shards.
func (w *Work) runGo(b *GoBuild, cs []*Case, deep bool) (map[int]*Obs, string, error) {
	n := 8
	if len(cs) < 2000 {
		n = 1
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].At < cs[j].At })
	res := make([]map[int]*Obs, n)
	crash := make([]string, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for sh := 0; sh < n; sh++ {
		wg.Add(1)
		go func(sh int) {
			defer wg.Done()
			var part []*Case
			for i := sh; i < len(cs); i += n {
				part = append(part, cs[i])
			}
			cf := filepath.Join(b.Dir, fmt.Sprintf("cases%d.jsonl", sh))
			of := filepath.Join(b.Dir, fmt.Sprintf("obs%d.jsonl", sh))
			if errs[sh] = writeCases(cf, part); errs[sh] != nil {
				return
			}
			env := []string{"DRV_CASES=" + cf, "DRV_OUT=" + of, "GOMAXPROCS=2", "GODEBUG="}
			if deep {
				env = append(env, "DRV_DEEP=1")
			}
			r, err := w.run(b.Dir, 8*time.Minute, env, nil, b.Bin, "-test.run=^TestRun$", "-test.timeout=0")
			if err != nil {
				errs[sh] = err
				return
			}
			if r.code != 0 || !strings.Contains(r.out, "DRV-OK") {
				crash[sh] = fmt.Sprintf("driver ended abnormally (exit %d, timeout %v): %s %s", r.code, r.timeout, tail(r.out, 1500), tail(r.err, 1500))
			}
			res[sh], errs[sh] = readObs(of)
			os.Remove(cf)
			os.Remove(of)
		}(sh)
	}
	wg.Wait()
	out := map[int]*Obs{}
	cr := ""
	for i := range res {
		if errs[i] != nil {
			return nil, "", errs[i]
		}
		if crash[i] != "" {
			cr = crash[i]
		}
		for k, v := range res[i] {
			out[k] = v
		}
	}
	return out, cr, nil
}

func readObs(path string) (map[int]*Obs, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, infra("%v", err)
	}
	defer f.Close()
	out := map[int]*Obs{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<29)
	for sc.Scan() {
		o := &Obs{}
		if err := json.Unmarshal(sc.Bytes(), o); err != nil {
			break // a truncated last line of a crashed driver
		}
		out[o.I] = o
	}
	return out, nil
}

// runConc runs the cases from many goroutines at once; it returns the driver's
// disagreements with the sequential results and the race detector's report.
func (w *Work) runConc(b *GoBuild, cs []*Case, goroutines, rounds int) (diffs []string, race string, n int, err error) {
	cf := filepath.Join(b.Dir, "conc.jsonl")
	if err = writeCases(cf, cs); err != nil {
		return
	}
	for r := 0; r < rounds; r++ {
		env := []string{"DRV_CASES=" + cf, fmt.Sprintf("DRV_GOROUTINES=%d", goroutines), fmt.Sprintf("GOMAXPROCS=%d", []int{8, 3, 16}[r%3]), "GORACE=halt_on_error=0 exitcode=66 history_size=2"}
		res, e := w.run(b.Dir, 6*time.Minute, env, nil, b.Bin, "-test.run=^TestConc$", "-test.timeout=0")
		if e != nil {
			return nil, "", 0, e
		}
		if strings.Contains(res.err, "WARNING: DATA RACE") || strings.Contains(res.out, "WARNING: DATA RACE") {
			return diffs, trunc(res.err+res.out, 4000), n, nil
		}
		if !strings.Contains(res.out, "DRV-OK") {
			return diffs, fmt.Sprintf("driver ended abnormally (exit %d, timeout %v): %s %s", res.code, res.timeout, tail(res.out, 1500), tail(res.err, 2500)), n, nil
		}
		for _, l := range strings.Split(res.out, "\n") {
			if strings.HasPrefix(l, "CONC-DIFF ") {
				diffs = append(diffs, l)
			}
		}
		n += goroutines * len(cs)
	}
	return
}
