package main

// C12: the plugin's output is a deterministic function of the schema.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// goChunks splits generated Go source into its top-level declarations.
func goChunks(src string) (map[string]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, d := range f.Decls {
		text := src[fset.Position(d.Pos()).Offset:fset.Position(d.End()).Offset]
		name := ""
		switch x := d.(type) {
		case *ast.FuncDecl:
			name = "func " + x.Name.Name
			if x.Recv != nil {
				name = "method " + src[fset.Position(x.Recv.Pos()).Offset:fset.Position(x.Recv.End()).Offset] + x.Name.Name
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					name += "type " + y.Name.Name
				case *ast.ValueSpec:
					for _, n := range y.Names {
						name += " " + n.Name
					}
					if name == " _" {
						name += text
					}
				}
			}
		}
		out[name] += text + "\n"
	}
	return out, nil
}

// ccChunks splits generated C++ into top-level definitions closed by a "}" in
// the first column, plus every other line.
func ccChunks(src string) map[string]string {
	out := map[string]string{}
	lines := strings.Split(src, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "bool Validate(") {
			j := i
			for j < len(lines) && strings.TrimRight(lines[j], " ") != "}" {
				j++
			}
			out[l] = strings.Join(lines[i:min(j+1, len(lines))], "\n")
			i = j
			continue
		}
		if t := strings.TrimSpace(l); t != "" {
			out["line "+t] = t
		}
	}
	return out
}

func lineChunks(src string) map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(src, "\n") {
		if t := strings.TrimSpace(l); t != "" {
			out[t] = t
		}
	}
	return out
}

var protoMsgLine = regexp.MustCompile(`(?m)^(\s*)(message|enum|oneof|option|repeated|optional|required|map<|\.|[a-z0-9]+ \w+ =)`)

// commented adds comments everywhere they are allowed on their own line.
func commented(text string, g *Gen) string {
	words := []string{"note {{ .Name }}", "%s %d \\", "*/ end /*", "TODO: \"quoted\" `ticks`", "message Fake { int32 x = 1; }", "#include <x>", "ünïcödé", "@deprecated", "line\n// second line"}
	i := 0
	return protoMsgLine.ReplaceAllStringFunc(text, func(m string) string {
		i++
		if i%3 == 0 {
			return m
		}
		nl := ""
		if strings.HasPrefix(m, "\n") {
			nl, m = "\n", m[1:]
		}
		c := "// " + words[g.Intn(len(words))] + "\n"
		if i%7 == 0 {
			c = "/* " + strings.ReplaceAll(words[(i/7)%2], "*/", "") + " */\n"
		}
		if i%5 == 0 {
			c = "// detached\n\n" + c
		}
		return nl + c + m
	})
}

func addedMsgs(syntax string, i int) string {
	l := ""
	if syntax == "proto2" {
		l = "optional "
	}
	return fmt.Sprintf(`
message ZzAdded%[2]d {
  enum F1 { ZZ%[2]d_A = 0; ZZ%[2]d_B = 7; }
  message Inner { %[1]sstring f_1 = 1 [(validate.rules).string.pattern = "^zz+$"]; }
  %[1]sstring f_1 = 1 [(validate.rules).string.uuid = true];
  %[1]sstring f_2 = 2 [(validate.rules).string = {pattern: "^zz+$", max_len: 9}];
  %[1]sInner f_3 = 3 [(validate.rules).message.required = true];
  repeated int64 f_4 = 4 [(validate.rules).repeated = {min_items: 1, unique: true, items: {int64: {gt: 5}}}];
  %[1]sF1 f_5 = 5 [(validate.rules).enum.defined_only = true];
  map<string, Inner> f_6 = 6 [(validate.rules).map = {min_pairs: 2}];
  %[1]sbytes f_7 = 7 [(validate.rules).bytes = {in: "\001\002", in: "zz"}];
  %[1]sstring f_8 = 8 [(validate.rules).string = {in: "a", in: "zz"}];
  oneof choice { option (validate.required) = true; int32 f_9 = 9 [(validate.rules).int32 = {in: 1, in: 2}]; string f_10 = 10; }
}
`, l, i)
}

func init() {
	checks["C12"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "every schema of the suites and the repository's own case files, for lang go, cc and java: repeated runs with different GOMAXPROCS, environment and working directory must be byte-identical; each file's output generated alone must equal its output generated together with other files in shuffled order; and the code of each message must survive added comments, source info, added messages, imports and files unchanged. distinct: different schema, language and transformation"
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed*1000003 + 12)
		all, _ := allGo(c, g, "", 1000)
		src := filepath.Join(c.W.Dir, "src")
		paths, err := c.W.writeProtos(src, all)
		if err != nil {
			return err
		}
		texts := map[string]string{}
		syntax := map[string]string{}
		dirs := map[string][]string{}
		noPGV := map[string]bool{}
		for _, f := range all.Files {
			texts[f.Path] = f.proto()
			syntax[f.Path] = f.Syntax
			dirs[filepath.Dir(f.Path)] = append(dirs[filepath.Dir(f.Path)], f.Path)
			noPGV[f.Path] = f.NoPGV
		}
		// the repository's own schemas
		hs, _ := filepath.Glob(filepath.Join(c.W.Repo, "tests/harness/cases/*.proto"))
		hs2, _ := filepath.Glob(filepath.Join(c.W.Repo, "tests/harness/cases/*/*.proto"))
		var harness []string
		for _, h := range append(hs, hs2...) {
			r, _ := filepath.Rel(c.W.Repo, h)
			harness = append(harness, r)
			b, err := os.ReadFile(h)
			if err != nil {
				return infra("%v", err)
			}
			texts[r] = string(b)
			syntax[r] = "proto3"
			if bytes.Contains(b, []byte(`"proto2"`)) {
				syntax[r] = "proto2"
			}
			dirs[filepath.Dir(r)] = append(dirs[filepath.Dir(r)], r)
		}
		paths = append(paths, harness...)
		// variants under other roots
		variants := []string{"plain", "comments", "prepend", "append", "both"}
		sets := map[string]*FDSet{}
		if sets["src"], err = c.W.descriptors(src, paths, false); err != nil {
			return err
		}
		for vi, v := range variants[1:] {
			root := filepath.Join(c.W.Dir, "var_"+v)
			for i, p := range paths {
				t := texts[p]
				if !noPGV[p] {
					switch v {
					case "prepend", "append", "both":
						body := addedMsgs(syntax[p], 10*i+vi)
						if v != "append" {
							// after the last import or header line
							k := 0
							for _, m := range regexp.MustCompile(`(?m)^(syntax|package|option|import)\b.*;\n`).FindAllStringIndex(t, -1) {
								k = m[1]
							}
							t = t[:k] + body + t[k:]
						}
						if v == "append" {
							t += body
						}
						if v == "both" {
							t = commented(t, g) + addedMsgs(syntax[p], 10*i+9)
						}
					}
				}
				if v == "comments" {
					t = commented(t, g)
				}
				f := filepath.Join(root, p)
				os.MkdirAll(filepath.Dir(f), 0o755)
				if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
					return infra("%v", err)
				}
			}
			if sets[v], err = c.W.descriptors(root, paths, true); err != nil {
				return err
			}
		}
		langs := []string{"lang=go,paths=source_relative", "lang=go", "lang=cc", "lang=java"}
		type key struct{ lang, path string }
		base := map[key]*PluginRes{}
		type job struct {
			lang    string
			targets []string
			set     string
			kind    string
			req     []byte
			env     []string
			bin     string
			path    string
			res     *PluginRes
		}
		var jobs []*job
		for _, l := range langs {
			for i, p := range paths {
				jobs = append(jobs, &job{lang: l, targets: []string{p}, set: "src", kind: "base", path: p})
				reps := 2
				if c.Rich > 0 {
					reps = 8
				}
				for k := 0; k < reps; k++ {
					jobs = append(jobs, &job{lang: l, targets: []string{p}, set: "src", kind: "repeat", path: p, env: []string{fmt.Sprintf("GOMAXPROCS=%d", []int{1, 8, 3}[k%3]), fmt.Sprintf("LANG=%s", []string{"C", "de_DE.UTF-8"}[k%2]), fmt.Sprintf("HOME=/nonexistent%d", k), fmt.Sprintf("TZ=%s", []string{"UTC", "Asia/Tokyo"}[k%2])}})
				}
				for _, v := range variants[1:] {
					if c.Rich == 0 && l == "lang=go" && i%3 > 0 {
						continue
					}
					jobs = append(jobs, &job{lang: l, targets: []string{p}, set: v, kind: v, path: p})
				}
			}
			for _, d := range sortedKeys(dirs) {
				for k := 0; k < 2+4*c.Rich; k++ {
					t := append([]string{}, dirs[d]...)
					g.Shuffle(len(t), func(a, b int) { t[a], t[b] = t[b], t[a] })
					if k%2 == 1 && len(t) > 1 {
						t = t[:1+g.Intn(len(t)-1)]
					}
					jobs = append(jobs, &job{lang: l, targets: t, set: "src", kind: "together"})
					if k == 0 {
						// other packages too
						for n := 0; n < 3; n++ {
							o := paths[g.Intn(len(paths))]
							dup := false
							for _, x := range t {
								dup = dup || x == o
							}
							if !dup {
								t = append(t, o)
							}
						}
						jobs = append(jobs, &job{lang: l, targets: t, set: "src", kind: "together"})
					}
				}
			}
		}
		if err := parallel(len(jobs), func(i int) error {
			j := jobs[i]
			r, err := c.W.pluginBin(c.W.Plugin, sets[j.set].request(j.targets, j.lang), j.env)
			j.res = r
			return err
		}); err != nil {
			return err
		}
		for _, j := range jobs {
			if j.kind == "base" {
				base[key{j.lang, j.path}] = j.res
			}
		}
		report := func(j *job, d string) {
			c.violation(fmt.Sprintf("%s:%s:%s", j.kind, j.lang, strings.Join(j.targets, ",")), d, map[string]any{"targets": j.targets, "parameter": j.lang, "transformation": j.kind, "environment": j.env, "schema": trunc(texts[j.path], 4000)})
		}
		same := func(a, b []GenFile) string {
			x, y := map[string]string{}, map[string]string{}
			for _, f := range a {
				x[f.Name] += f.Content
			}
			for _, f := range b {
				y[f.Name] += f.Content
			}
			if len(x) != len(y) {
				return fmt.Sprintf("files %q against %q", names(a), names(b))
			}
			for n := range x {
				if x[n] != y[n] {
					return fmt.Sprintf("%s differs: %s", n, firstDiff(x[n], y[n]))
				}
			}
			return ""
		}
		okFiles, errored := 0, 0
		for _, j := range jobs {
			if j.kind == "base" {
				if j.res.failed() {
					errored++
				} else {
					okFiles++
				}
				continue
			}
			c.Evals++
			if j.kind == "together" {
				want := map[string]string{}
				bad := false
				for _, t := range j.targets {
					b := base[key{j.lang, t}]
					bad = bad || b.failed()
					for _, f := range b.Files {
						want[f.Name] = f.Content
					}
				}
				if bad != j.res.failed() {
					report(j, fmt.Sprintf("files generated alone fail: %v, together: %v %s", bad, j.res.failed(), tail(j.res.text(), 400)))
					continue
				}
				if bad {
					continue
				}
				got := map[string]string{}
				for _, f := range j.res.Files {
					if _, dup := got[f.Name]; dup {
						report(j, "file emitted twice: "+f.Name)
					}
					got[f.Name] = f.Content
				}
				for _, n := range sortedKeys(want) {
					if got[n] != want[n] {
						report(j, fmt.Sprintf("%s generated together with other files differs: %s", n, firstDiff(want[n], got[n])))
						break
					}
				}
				if len(got) != len(want) {
					report(j, fmt.Sprintf("%d files together, %d alone", len(got), len(want)))
				}
				c.add("files_compared_together", len(want))
				c.nontrivial(j.kind, j.lang, strings.Join(j.targets, ","))
				continue
			}
			b := base[key{j.lang, j.path}]
			if b.failed() != j.res.failed() {
				report(j, fmt.Sprintf("base fails: %v, %s fails: %v %s", b.failed(), j.kind, j.res.failed(), tail(j.res.text(), 400)))
				continue
			}
			if b.failed() {
				continue
			}
			c.nontrivial(j.kind, j.lang, j.path)
			if j.kind == "repeat" {
				if d := same(b.Files, j.res.Files); d != "" {
					report(j, d)
				}
				c.add("repeated_runs_compared", 1)
				continue
			}
			got := map[string]string{}
			for _, f := range j.res.Files {
				got[f.Name] = f.Content
			}
			for _, f := range b.Files {
				var x, y map[string]string
				var e1, e2 error
				switch {
				case strings.HasSuffix(f.Name, ".go"):
					x, e1 = goChunks(f.Content)
					y, e2 = goChunks(got[f.Name])
				case strings.HasSuffix(f.Name, ".cc"):
					x, y = ccChunks(f.Content), ccChunks(got[f.Name])
				default:
					x, y = lineChunks(f.Content), lineChunks(got[f.Name])
				}
				if e1 != nil || e2 != nil {
					continue // C13's concern
				}
				for _, k := range sortedKeys(x) {
					if y[k] != x[k] {
						report(j, fmt.Sprintf("%s: %s changed after the unrelated change: %s", f.Name, trunc(k, 100), firstDiff(x[k], y[k])))
						break
					}
				}
				if j.kind == "comments" && len(x) != len(y) {
					report(j, fmt.Sprintf("%s: %d pieces of code became %d when comments were added", f.Name, len(x), len(y)))
				}
				c.add("message_level_pieces_compared", len(x))
			}
			if len(c.Samples) < 10 && c.Evals%97 == 0 {
				c.sample(map[string]any{"file": j.path, "parameter": j.lang, "transformation": j.kind, "output_files": names(j.res.Files)})
			}
		}
		c.Cov["schemas"] = len(paths)
		c.Cov["base_generations_ok"] = okFiles
		c.Cov["base_generations_refused"] = errored
		if okFiles < len(paths) {
			return infra("vacuous run: %d of %d generations worked", okFiles, len(jobs))
		}
		return nil
	}}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var l, r string
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			r = y[i]
		}
		if l != r {
			return fmt.Sprintf("line %d: %q against %q", i+1, trunc(l, 200), trunc(r, 200))
		}
	}
	return "identical"
}
