package main

// C14: output files, names and parameters.

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type layFile struct {
	path, goPkg, pkg, syntax string
	javaPkg, javaOuter       string
	hasJavaPkg, multi        bool
	pgv                      bool
	body                     string
	msgs                     []string
}

func (f *layFile) proto() string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = %q;\n", f.syntax)
	if f.pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", f.pkg)
	}
	if f.goPkg != "" {
		fmt.Fprintf(&b, "option go_package = %q;\n", f.goPkg)
	}
	if f.hasJavaPkg {
		fmt.Fprintf(&b, "option java_package = %q;\n", f.javaPkg)
	}
	if f.javaOuter != "" {
		fmt.Fprintf(&b, "option java_outer_classname = %q;\n", f.javaOuter)
	}
	if f.multi {
		b.WriteString("option java_multiple_files = true;\n")
	}
	if f.pgv {
		b.WriteString("import \"validate/validate.proto\";\n")
	}
	b.WriteString(f.body)
	return b.String()
}

func lsFiles(dir string) (out []string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			r, _ := filepath.Rel(dir, p)
			out = append(out, r)
		}
		return nil
	})
	sort.Strings(out)
	return
}

func names(fs []GenFile) (out []string) {
	for _, f := range fs {
		out = append(out, f.Name)
	}
	sort.Strings(out)
	return
}

func (g *Gen) layFiles(n int) (out []*layFile) {
	stems := []string{"foo", "foo_bar", "fooBar", "FooBar", "foo-bar", "foo.bar", "FOOBar", "foo2bar", "foo_2_bar", "a", "x_y_z", "v1alpha1", "my_service_v2", "api", "Thing", "UPPER", "mixed_Case", "with-dash_and.dot", "trailing_", "n64", "HTTPApi"}
	dirs := []string{"", "d1/", "d1/d2/", "dir-dash/x/", "dot.dir/", "Up/Case/"}
	pkgs := []string{"", "p", "p.q", "my_pkg.v1", "a.b.c.d"}
	gop := []string{"ex.com/m/%s", "ex.com/m/%s;alias", "ex.com/a/m/m/%s", "ex.com/m/sub/%s;x_y", "m/%s", "b/a/b/%s"}
	for i := 0; i < n; i++ {
		f := &layFile{syntax: []string{"proto3", "proto2"}[g.Intn(2)], pgv: g.Intn(5) > 0}
		stem := stems[g.Intn(len(stems))]
		f.path = fmt.Sprintf("lay/l%d/%s%s.proto", i, dirs[g.Intn(len(dirs))], stem)
		base := pkgs[g.Intn(len(pkgs))]
		f.pkg = strings.TrimPrefix(fmt.Sprintf("%s.u%d", base, i), ".")
		f.goPkg = fmt.Sprintf(gop[g.Intn(len(gop))], fmt.Sprintf("u%d", i))
		if g.Intn(3) == 0 {
			f.hasJavaPkg, f.javaPkg = true, fmt.Sprintf("com.example.l%d", i)
		}
		if g.Intn(4) == 0 {
			f.javaOuter = []string{"MyOuter", "Outer_Name", "outerLower", "FooProto2"}[g.Intn(4)]
		}
		f.multi = g.Intn(3) == 0
		// content
		nm := g.Intn(4)
		lab := ""
		if f.syntax == "proto2" {
			lab = "optional "
		}
		rule := ""
		if f.pgv {
			rule = " [(validate.rules).int32.gt = 1]"
		}
		for k := 0; k < nm; k++ {
			name := []string{"Alpha", "Beta_Gamma", "Delta2", "HTTPReq", "Msg_v2", "Foo", "FooBar", "Epsilon"}[g.Intn(8)]
			if strings.Contains(f.body, "message "+name+" {") {
				continue
			}
			f.body += fmt.Sprintf("message %s {\n  %sint32 x = 1%s;\n  message Inner { %sstring y = 1; }\n  %sInner in = 2;\n}\n", name, lab, rule, lab, lab)
			f.msgs = append(f.msgs, name)
		}
		if g.Intn(5) == 0 { // a nested type named like the implicit outer class
			f.body += fmt.Sprintf("message Wrap%d { %s %s { %s } }\n", i, []string{"message", "enum"}[i%2], []string{"Foo", "FooBar", "Api", "Thing", "A"}[g.Intn(5)], []string{lab + "int32 z = 1;", fmt.Sprintf("NV%d = 0;", i)}[i%2])
			f.msgs = append(f.msgs, fmt.Sprintf("Wrap%d", i))
		}
		if g.Intn(4) == 0 {
			f.body += fmt.Sprintf("enum %s { U%d_ZERO = 0; U%d_ONE = 1; }\n", []string{"Kind", "Foo2Bar", "API"}[g.Intn(3)], i, i)
		}
		if g.Intn(5) == 0 && len(f.msgs) > 0 {
			f.body += fmt.Sprintf("service %s { rpc Do(%s) returns (%s); }\n", []string{"Svc", "MyServiceV2", "A"}[g.Intn(3)], f.msgs[0], f.msgs[0])
		}
		out = append(out, f)
	}
	return
}

var javaClassRe = regexp.MustCompile(`(?m)^public class (\S+?)(?:\s|\{)`)
var javaPkgRe = regexp.MustCompile(`(?m)^package (\S+?)\s*;`)
var goPkgRe = regexp.MustCompile(`(?m)^package (\S+)`)

func init() {
	checks["C14"] = check{level: "exploration", run: func(c *CheckCtx) error {
		c.Rule = "random file names, directories, proto packages and language options crossed with lang, paths and module parameters; the plugin's response is compared with the files protoc's own generators (protoc-gen-go, protoc --cpp_out, --java_out) write for the same request; distinct: different layout and parameters"
		c.Assume = []string{"protoc 3.21.12 and the protoc-gen-go of the repository's go.mod as references for names"}
		if err := c.W.buildPlugin(); err != nil {
			return err
		}
		g := newGen(c.Seed*1000003 + 14)
		n := 140
		if c.Tier == "thorough" {
			n = 1500
		}
		lf := g.layFiles(n)
		src := filepath.Join(c.W.Dir, "src")
		var paths []string
		for _, f := range lf {
			p := filepath.Join(src, f.path)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(f.proto()), 0o644); err != nil {
				return infra("%v", err)
			}
			paths = append(paths, f.path)
		}
		fds, err := c.W.descriptors(src, paths, true)
		if err != nil {
			return err
		}
		type run struct {
			lay                *layFile
			lang, param, title string
			targets            []string
			mod                string
		}
		var runs []run
		for i, f := range lf {
			one := []string{f.path}
			for _, p := range []string{"", "paths=source_relative", "paths=import"} {
				runs = append(runs, run{f, "go", p, "", one, ""})
			}
			gp := strings.Split(f.goPkg, ";")[0]
			segs := strings.Split(gp, "/")
			mods := []string{segs[0], strings.Join(segs[:len(segs)-1], "/"), gp, segs[len(segs)-2], segs[0][:1], strings.Join(segs[:2], "/"), "ex.com/zzz", "u", "com"}
			runs = append(runs, run{f, "go", "module=" + mods[i%len(mods)], "", one, mods[i%len(mods)]})
			runs = append(runs, run{f, "go", "module=" + mods[(i*5+2)%len(mods)], "", one, mods[(i*5+2)%len(mods)]})
			runs = append(runs, run{f, "cc", "", "", one, ""}, run{f, "java", "", "", one, ""})
			runs = append(runs, run{f, "", []string{"", "paths=source_relative", "lang="}[i%3], "", one, ""})
			runs = append(runs, run{f, []string{"python", "gogo", "Go", "c++", "h", "default", "javaindex", "ccnop", " go", "rust"}[i%10], "", "bad", one, ""})
			// several targets at once
			t := []string{f.path, lf[(i+1)%len(lf)].path, lf[(i+7)%len(lf)].path}
			runs = append(runs, run{f, []string{"cc", "java"}[i%2], "", "", t, ""})
		}
		byPath := map[string]*layFile{}
		for _, f := range lf {
			byPath[f.path] = f
		}
		// reference names
		refJava, refCC := map[string][]string{}, map[string][]string{}
		refs := make([][2][]string, len(lf))
		err = parallel(len(lf), func(i int) error {
			for k, l := range []string{"java", "cpp"} {
				dir := filepath.Join(c.W.Dir, "ref", l, fmt.Sprint(i))
				os.MkdirAll(dir, 0o755)
				r, err := c.W.protoc(src, []string{"--" + l + "_out=" + dir}, []string{lf[i].path})
				if err != nil {
					return err
				}
				if r.code != 0 {
					refs[i][k] = []string{"!" + r.err}
					continue
				}
				refs[i][k] = lsFiles(dir)
			}
			return nil
		})
		if err != nil {
			return err
		}
		for i, f := range lf {
			refJava[f.path], refCC[f.path] = refs[i][0], refs[i][1]
		}
		type result struct {
			pv, pg *PluginRes
		}
		res := make([]result, len(runs))
		err = parallel(len(runs), func(i int) error {
			x := runs[i]
			param := x.param
			if x.lang != "" {
				param = strings.Trim("lang="+x.lang+","+x.param, ",")
			}
			var err error
			if res[i].pv, err = c.W.plugin(fds.request(x.targets, param)); err != nil {
				return err
			}
			if x.lang == "go" && x.title == "" {
				pr := x.param
				if x.mod != "" {
					// the reference for where files go without a module; the prefix is judged below
					pr = ""
				}
				res[i].pg, err = c.W.pluginBin(c.W.PGGo, fds.request(x.targets, pr), nil)
			}
			return err
		})
		if err != nil {
			return err
		}
		for i, x := range runs {
			r := res[i].pv
			d, key := "", fmt.Sprintf("%s:%s:%s", x.lang, x.param, x.lay.path)
			got := names(r.Files)
			var want []string
			unspec := ""
			switch {
			case x.title == "bad" || x.lang == "":
				if !r.failed() {
					d = fmt.Sprintf("lang %q is accepted", x.lang)
				} else if len(r.Files) > 0 {
					d = "an error, but with output"
				}
				c.add("bad_lang_runs", 1)
			case r.failed():
				d = fmt.Sprintf("generation fails: exit %d %s", r.Code, tail(r.text(), 500))
			case x.lang == "go":
				if res[i].pg.failed() {
					unspec = "protoc-gen-go refuses this layout"
					break
				}
				for _, n := range names(res[i].pg.Files) {
					n = strings.TrimSuffix(n, ".pb.go") + ".pb.validate.go"
					if x.mod != "" && strings.HasPrefix(n, x.mod+"/") {
						n = n[len(x.mod)+1:]
						c.add("module_prefix_stripped", 1)
					} else if x.mod != "" {
						c.add("module_not_a_prefix", 1)
					}
					want = append(want, n)
				}
				if len(r.Files) == 1 && len(res[i].pg.Files) == 1 {
					a, b := goPkgRe.FindStringSubmatch(r.Files[0].Content), goPkgRe.FindStringSubmatch(res[i].pg.Files[0].Content)
					if a == nil || b == nil || a[1] != b[1] {
						d = fmt.Sprintf("package clause %v, protoc-gen-go writes %v", a, b)
					}
				}
			case x.lang == "cc":
				for _, t := range x.targets {
					for _, n := range refCC[t] {
						if strings.HasPrefix(n, "!") {
							unspec = n
						}
						n = strings.Replace(n, ".pb.h", ".pb.validate.h", 1)
						n = strings.Replace(n, ".pb.cc", ".pb.validate.cc", 1)
						want = append(want, n)
					}
				}
			case x.lang == "java":
				for _, t := range x.targets {
					f := byPath[t]
					if !f.pgv {
						continue
					}
					if len(refJava[t]) > 0 && strings.HasPrefix(refJava[t][0], "!") {
						unspec = refJava[t][0] // protoc itself refuses the names
						break
					}
					outer := ""
					for _, n := range refJava[t] {
						if !f.multi {
							outer = n
						}
					}
					if !f.multi {
						want = append(want, strings.TrimSuffix(outer, ".java")+"Validator.java")
						continue
					}
					dir := ""
					if len(refJava[t]) > 0 {
						dir = filepath.Dir(refJava[t][0])
					}
					for _, m := range f.msgs {
						want = append(want, filepath.Join(dir, m+"Validator.java"))
					}
				}
				for _, fl := range r.Files {
					cl := javaClassRe.FindStringSubmatch(fl.Content)
					pk := javaPkgRe.FindStringSubmatch(fl.Content)
					if cl == nil || pk == nil {
						d = "no class or package in " + fl.Name
						break
					}
					if w := strings.ReplaceAll(pk[1], ".", "/") + "/" + cl[1] + ".java"; w != fl.Name {
						d = fmt.Sprintf("file %s declares %s", fl.Name, w)
					}
				}
			}
			if unspec != "" {
				c.add("not_judged", 1)
				continue
			}
			c.Evals++
			if d == "" && x.title == "" && x.lang != "" {
				sort.Strings(want)
				if strings.Join(want, "\n") != strings.Join(got, "\n") {
					d = fmt.Sprintf("files %q, expected %q", got, want)
				}
			}
			if d != "" {
				if x.lang == "java" {
					key = "java:" + filepath.Base(x.lay.path) + ":" + x.lay.javaOuter
				}
				c.violation(key, d, map[string]any{"schema": x.lay.proto(), "file": x.lay.path, "lang": x.lang, "parameter": x.param, "targets": x.targets})
				continue
			}
			c.add("files_checked", len(got))
			c.nontrivial(x.lang, x.param, strings.Join(x.targets, ","), x.lay.proto())
			if i%(1+len(runs)/12) == 0 {
				c.sample(map[string]any{"targets": x.targets, "lang": x.lang, "parameter": x.param, "files": got, "exit": r.Code})
			}
		}
		return nil
	}}
}
