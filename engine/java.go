package main

// Java: stand-in message classes with protoc's names, building and running.

import (
	"encoding/hex"
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
	"unicode/utf16"
)

// javaCamel is protoc's naming of Java accessors and classes.
func javaCamel(s string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z':
			if up {
				c -= 32
			}
			b.WriteByte(c)
			up = false
		case c >= 'A' && c <= 'Z':
			b.WriteByte(c)
			up = false
		case c >= '0' && c <= '9':
			b.WriteByte(c)
			up = true
		default:
			up = true
		}
	}
	return b.String()
}

func javaField(name string) string {
	c := javaCamel(name)
	switch c {
	case "Class", "DefaultInstanceForType", "ParserForType", "SerializedSize", "AllFields", "DescriptorForType", "InitializationErrorString", "UnknownFields", "CachedSize":
		c += "_"
	}
	return c
}

func (f *File) javaPkg() string {
	if f.JavaPkg != nil {
		return *f.JavaPkg
	}
	return f.Pkg
}

func (f *File) javaOuter() string {
	if f.JavaOuter != "" {
		return f.JavaOuter
	}
	n := javaCamel(strings.TrimSuffix(filepath.Base(f.Path), ".proto"))
	clash := false
	var in func(m *Msg)
	in = func(m *Msg) {
		clash = clash || m.Name == n
		for _, e := range m.Enums {
			clash = clash || e.Name == n
		}
		for _, x := range m.Nested {
			in(x)
		}
	}
	for _, m := range f.Msgs {
		in(m)
	}
	for _, e := range f.Enums {
		clash = clash || e.Name == n
	}
	if clash {
		n += "OuterClass"
	}
	return n
}

func javaJoin(pkg, c string) string {
	if pkg == "" {
		return c
	}
	return pkg + "." + c
}

func (f *File) javaTop(n string) string {
	if f.JavaMulti {
		return javaJoin(f.javaPkg(), n)
	}
	return javaJoin(f.javaPkg(), f.javaOuter()+"."+n)
}

func javaClass(m *Msg) string {
	if m.WKT != "" {
		return "com.google.protobuf." + m.WKT
	}
	if m.Parent != nil {
		return javaClass(m.Parent) + "." + m.Name
	}
	return m.File.javaTop(m.Name)
}

func javaEnum(e *Enum) string {
	for _, m := range e.File.allMsgs() {
		for _, x := range m.Enums {
			if x == e {
				return javaClass(m) + "." + e.Name
			}
		}
	}
	return e.File.javaTop(e.Name)
}

func javaPrim(k Kind) (prim, box string) {
	switch k {
	case KFloat:
		return "float", "java.lang.Float"
	case KDouble:
		return "double", "java.lang.Double"
	case KBool:
		return "boolean", "java.lang.Boolean"
	case KString:
		return "java.lang.String", "java.lang.String"
	case KBytes:
		return "com.google.protobuf.ByteString", "com.google.protobuf.ByteString"
	case KInt64, KUint64, KSint64, KFixed64, KSfixed64:
		return "long", "java.lang.Long"
	}
	return "int", "java.lang.Integer"
}

func (t Type) java() (string, string) {
	switch t.K {
	case KMsg:
		c := javaClass(t.Msg)
		return c, c
	case KEnum:
		c := javaEnum(t.Enum)
		return c, c
	}
	return javaPrim(t.K)
}

func (t Type) wireKind() string {
	switch t.K {
	case KMsg:
		return "message"
	case KEnum:
		return "enum"
	}
	return kindName[t.K]
}

func javaStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, u := range utf16.Encode([]rune(s)) {
		if u >= 32 && u < 127 && u != '"' && u != '\\' {
			b.WriteByte(byte(u))
		} else if u == '"' || u == '\\' {
			b.WriteByte('\\')
			b.WriteByte(byte(u))
		} else {
			fmt.Fprintf(&b, "\\%03o", u&0xff)
			if u > 0xff {
				s := b.String()
				b.Reset()
				b.WriteString(s[:len(s)-4] + fmt.Sprintf("\\u%04x", u))
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

func javaDefault(f *Field) string {
	if f.Default == nil {
		if f.T.K == KEnum && len(f.T.Enum.Vals) > 0 {
			return fmt.Sprintf("%s.forNumber(%d)", javaEnum(f.T.Enum), f.T.Enum.Vals[0].N)
		}
		return "null"
	}
	switch x := f.Default.(type) {
	case int32:
		return fmt.Sprintf("Integer.valueOf(%d)", x)
	case uint32:
		return fmt.Sprintf("Integer.valueOf(%d)", int32(x))
	case int64:
		return fmt.Sprintf("Long.valueOf(%dL)", x)
	case uint64:
		return fmt.Sprintf("Long.valueOf(%dL)", int64(x))
	case float32:
		return fmt.Sprintf("Float.intBitsToFloat(0x%x)", math.Float32bits(x))
	case float64:
		return fmt.Sprintf("Double.longBitsToDouble(0x%xL)", math.Float64bits(x))
	case bool:
		return fmt.Sprintf("Boolean.valueOf(%v)", x)
	case string:
		return javaStr(x)
	case []byte:
		var b strings.Builder
		for _, c := range x {
			fmt.Fprintf(&b, "(byte) %d,", c)
		}
		return "com.google.protobuf.ByteString.copyFrom(new byte[]{" + b.String() + "})"
	case EnumNum:
		return fmt.Sprintf("%s.forNumber(%d)", javaEnum(f.T.Enum), x)
	}
	panic(fmt.Sprintf("default %T", f.Default))
}

func (e *Enum) java(b *strings.Builder, static string) {
	closed := e.File.Syntax == "proto2"
	fmt.Fprintf(b, "public %senum %s implements com.google.protobuf.ProtocolMessageEnum {\n", static, e.Name)
	first := map[int32]string{}
	var alias []EnumVal
	for _, v := range e.Vals {
		if _, ok := first[v.N]; ok {
			alias = append(alias, v)
			continue
		}
		first[v.N] = v.Name
		fmt.Fprintf(b, "  %s(%d),\n", v.Name, v.N)
	}
	if !closed {
		b.WriteString("  UNRECOGNIZED(-1),\n")
	}
	b.WriteString("  ;\n")
	for _, v := range alias {
		fmt.Fprintf(b, "  public static final %s %s = %s;\n", e.Name, v.Name, first[v.N])
	}
	unrec := ""
	if !closed {
		unrec = "if (this == UNRECOGNIZED) { throw new java.lang.IllegalArgumentException(\"Can't get the number of an unknown enum value.\"); } "
	}
	fmt.Fprintf(b, "  private final int value;\n  private %s(int v) { value = v; }\n  public final int getNumber() { %sreturn value; }\n", e.Name, unrec)
	fmt.Fprintf(b, "  public static %s forNumber(int v) {\n    switch (v) {\n", e.Name)
	for n, name := range first {
		_ = n
		_ = name
	}
	seen := map[int32]bool{}
	for _, v := range e.Vals {
		if !seen[v.N] {
			seen[v.N] = true
			fmt.Fprintf(b, "      case %d: return %s;\n", v.N, v.Name)
		}
	}
	fmt.Fprintf(b, "      default: return null;\n    }\n  }\n  public static %s valueOf(int v) { return forNumber(v); }\n}\n", e.Name)
}

func (m *Msg) java(b *strings.Builder, static string) {
	closed2 := m.File.Syntax == "proto2"
	fmt.Fprintf(b, "public %sfinal class %s extends com.google.protobuf.GeneratedMessageV3 {\n", static, m.Name)
	oneofIx := map[*Oneof]int{}
	for i, o := range m.Oneofs {
		oneofIx[o] = i
	}
	b.WriteString("  private static final com.google.protobuf.FD[] FDS = {\n")
	for _, f := range m.Fields {
		lab, key := 0, "null"
		switch f.Label {
		case Repeated:
			lab = 1
		case Map:
			lab, key = 2, fmt.Sprintf("%q", kindName[f.KeyK])
		}
		o := -1
		if f.Oneof != nil {
			o = oneofIx[f.Oneof]
		}
		ms, en, un := "null", "null", "null"
		if f.T.K == KMsg {
			ms = "() -> new " + javaClass(f.T.Msg) + "()"
		}
		if f.T.K == KEnum {
			c := javaEnum(f.T.Enum)
			en = "n -> " + c + ".forNumber(n)"
			if f.T.Enum.File.Syntax != "proto2" {
				un = c + ".UNRECOGNIZED"
			}
		}
		fmt.Fprintf(b, "    new com.google.protobuf.FD(%d, %q, %d, %s, %d, %s, %s, %s, %s),\n", f.Num, f.T.wireKind(), lab, key, o, javaDefault(f), ms, en, un)
	}
	b.WriteString("  };\n  protected com.google.protobuf.FD[] fds() { return FDS; }\n")
	if closed2 {
		b.WriteString("  protected boolean strictUtf8() { return false; }\n")
	}
	fmt.Fprintf(b, "  public static %s getDefaultInstance() { return new %s(); }\n", m.Name, m.Name)
	for i, f := range m.Fields {
		n := javaField(f.Name)
		p, x := f.T.java()
		open := f.T.K == KEnum && !closed2
		switch f.Label {
		case Repeated:
			fmt.Fprintf(b, "  public java.util.List<%s> get%sList() { return list(%d); }\n  public int get%sCount() { return list(%d).size(); }\n", x, n, i, n, i)
			if open {
				fmt.Fprintf(b, "  public java.util.List<java.lang.Integer> get%sValueList() { return enumNumbers(%d); }\n", n, i)
			}
		case Map:
			_, kx := javaPrim(f.KeyK)
			fmt.Fprintf(b, "  public java.util.Map<%s, %s> get%sMap() { return map(%d); }\n  public int get%sCount() { return map(%d).size(); }\n", kx, x, n, i, n, i)
			if open {
				fmt.Fprintf(b, "  public java.util.Map<%s, java.lang.Integer> get%sValueMap() { return enumNumberMap(%d); }\n", kx, n, i)
			}
		default:
			fmt.Fprintf(b, "  public %s get%s() { return (%s) val(%d); }\n", p, n, x, i)
			if f.T.K == KMsg || closed2 || f.Label == Optional || f.Oneof != nil {
				fmt.Fprintf(b, "  public boolean has%s() { return isSet(%d); }\n", n, i)
			}
			if open {
				fmt.Fprintf(b, "  public int get%sValue() { return enumNumber(%d); }\n", n, i)
			}
		}
	}
	for i, o := range m.Oneofs {
		n := javaCamel(o.Name)
		fmt.Fprintf(b, "  public enum %sCase {\n", n)
		cases := ""
		for _, f := range m.Fields {
			if f.Oneof == o {
				fmt.Fprintf(b, "    %s,\n", strings.ToUpper(f.Name))
				cases += fmt.Sprintf("      case %d: return %sCase.%s;\n", f.Num, n, strings.ToUpper(f.Name))
			}
		}
		unset := strings.ToUpper(strings.ReplaceAll(n, "_", "")) + "_NOT_SET"
		fmt.Fprintf(b, "    %s\n  }\n  public %sCase get%sCase() {\n    switch (oneofCase(%d)) {\n%s      default: return %sCase.%s;\n    }\n  }\n", unset, n, n, i, cases, n, unset)
	}
	for _, e := range m.Enums {
		e.java(b, "")
	}
	for _, x := range m.Nested {
		x.java(b, "static ")
	}
	b.WriteString("}\n")
}

// javaSources are the stand-ins for protoc's Java output of f: path -> text.
func (f *File) javaSources() map[string]string {
	out := map[string]string{}
	pkg := ""
	if f.javaPkg() != "" {
		pkg = "package " + f.javaPkg() + ";\n\n"
	}
	dir := strings.ReplaceAll(f.javaPkg(), ".", "/")
	if f.JavaMulti {
		for _, m := range f.Msgs {
			var b strings.Builder
			m.java(&b, "")
			out[filepath.Join(dir, m.Name+".java")] = pkg + b.String()
		}
		for _, e := range f.Enums {
			var b strings.Builder
			e.java(&b, "")
			out[filepath.Join(dir, e.Name+".java")] = pkg + b.String()
		}
		out[filepath.Join(dir, f.javaOuter()+".java")] = pkg + "public final class " + f.javaOuter() + " {\n}\n"
		return out
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%spublic final class %s {\n", pkg, f.javaOuter())
	for _, m := range f.Msgs {
		m.java(&b, "static ")
	}
	for _, e := range f.Enums {
		e.java(&b, "")
	}
	b.WriteString("}\n")
	out[filepath.Join(dir, f.javaOuter()+".java")] = b.String()
	return out
}

// ---- building ----

type JavaBuild struct {
	Dir, CP string
}

var javaErrRe = regexp.MustCompile(`(?m)^(\S+\.java):\d+: error: .*$`)

func (w *Work) javac(dir string, args []string, files []string) (cmdRes, error) {
	l := filepath.Join(dir, fmt.Sprintf("files%d.txt", time.Now().UnixNano()))
	writeFile(l, strings.Join(files, "\n")+"\n")
	a := append([]string{"-J-Xmx3g", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-nowarn", "-proc:none", "-Xmaxerrs", "400", "-encoding", "UTF-8", "-source", "8", "-target", "8", "-Xlint:none"}, args...)
	r, err := w.run(dir, 8*time.Minute, []string{"LC_ALL=C"}, nil, "javac", append(a, "@"+l)...)
	os.Remove(l)
	if err == nil && r.timeout {
		return r, infra("javac timed out")
	}
	return r, err
}

func javaFilesUnder(dir string) (out []string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".java") {
			out = append(out, p)
		}
		return nil
	})
	return
}

// javaRuntime compiles the stand-in libraries with the repository's Java
// runtime and interceptors.
func (w *Work) javaRuntime(dir string) (string, error) {
	src := filepath.Join(dir, "lib")
	err := fs.WalkDir(drivers, "drivers/java", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := drivers.ReadFile(p)
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(p, "drivers/java/")
		os.MkdirAll(filepath.Dir(filepath.Join(src, rel)), 0o755)
		writeFile(filepath.Join(src, rel), string(b))
		return nil
	})
	if err != nil {
		return "", infra("%v", err)
	}
	cp := filepath.Join(dir, "rt")
	os.MkdirAll(cp, 0o755)
	files := javaFilesUnder(src)
	for _, p := range []string{"java/pgv-java-stub/src/main/java", "java/pgv-java-grpc/src/main/java"} {
		files = append(files, javaFilesUnder(filepath.Join(w.Repo, p))...)
	}
	args := []string{"-d", cp}
	if _, err := os.Stat("/usr/share/java/guava.jar"); err == nil {
		args = append(args, "-cp", "/usr/share/java/guava.jar")
	}
	r, err := w.javac(dir, args, files)
	if err != nil {
		return "", err
	}
	if r.code != 0 {
		return "", infra("compiling the Java runtime: %s", tail(r.err, 3000))
	}
	return cp, nil
}

// buildJava generates validators for s and compiles them.
func (w *Work) buildJava(name string, s *Suite) (*JavaBuild, error) {
	dir := filepath.Join(w.Dir, name)
	src := filepath.Join(dir, "src")
	if _, err := w.writeProtos(src, s); err != nil {
		return nil, err
	}
	rt, err := w.javaRuntime(dir)
	if err != nil {
		return nil, err
	}
	pojo, val, pcls := filepath.Join(dir, "pojo"), filepath.Join(dir, "val"), filepath.Join(dir, "classes")
	for _, d := range []string{pojo, val, pcls} {
		os.MkdirAll(d, 0o755)
	}
	var pgv []string
	var reg, calls strings.Builder
	for i, f := range s.Files {
		for p, t := range f.javaSources() {
			os.MkdirAll(filepath.Dir(filepath.Join(pojo, p)), 0o755)
			writeFile(filepath.Join(pojo, p), t)
		}
		if !f.NoPGV {
			pgv = append(pgv, f.Path)
		}
		fmt.Fprintf(&reg, "  static void r%d(java.util.Map<String, java.util.function.Supplier<com.google.protobuf.GeneratedMessageV3>> t) {\n", i)
		for _, m := range f.allMsgs() {
			fmt.Fprintf(&reg, "    t.put(%q, () -> new %s());\n", m.Full, javaClass(m))
		}
		reg.WriteString("  }\n")
		fmt.Fprintf(&calls, "    r%d(t);\n", i)
	}
	os.MkdirAll(filepath.Join(pojo, "verif"), 0o755)
	writeFile(filepath.Join(pojo, "verif/Reg.java"), "package verif;\n\npublic final class Reg {\n"+reg.String()+"  public static void all(java.util.Map<String, java.util.function.Supplier<com.google.protobuf.GeneratedMessageV3>> t) {\n"+calls.String()+"  }\n}\n")
	if ds, err := fs.Glob(drivers, "drivers/javadrv/*.java"); err != nil || len(ds) == 0 {
		return nil, infra("no Java driver")
	} else {
		for _, p := range ds {
			b, _ := drivers.ReadFile(p)
			writeFile(filepath.Join(pojo, "verif", filepath.Base(p)), string(b))
		}
	}
	r, err := w.protoc(src, []string{"--plugin=protoc-gen-validate=" + w.Plugin, "--validate_out=lang=java:" + val}, pgv)
	if err != nil {
		return nil, err
	}
	if r.code != 0 {
		return nil, BrokenError{"generation", "protoc --validate_out lang=java fails: " + tail(r.err, 2000)}
	}
	if err := w.javaNames(src, dir, s); err != nil {
		return nil, err
	}
	files := javaFilesUnder(pojo)
	r, err = w.javac(dir, []string{"-d", pcls, "-cp", rt}, files)
	if err != nil {
		return nil, err
	}
	if r.code != 0 {
		return nil, infra("compiling stand-in messages: %s", trunc(r.err, 3000))
	}
	vf := javaFilesUnder(val)
	const parts = 6
	fails := make([]string, parts)
	if err := parallel(parts, func(i int) error {
		var mine []string
		for j := i; j < len(vf); j += parts {
			mine = append(mine, vf[j])
		}
		if len(mine) == 0 {
			return nil
		}
		vc := filepath.Join(dir, fmt.Sprintf("vc%d", i))
		os.MkdirAll(vc, 0o755)
		r, err := w.javac(vc, []string{"-d", vc, "-cp", pcls + ":" + rt}, mine)
		if err == nil && r.code != 0 {
			fails[i] = r.err
			if !javaErrRe.MatchString(r.err) {
				return infra("javac: %s", tail(r.err, 2000))
			}
		}
		return err
	}); err != nil {
		return nil, err
	}
	cp := pcls + ":" + rt
	for i := range fails {
		if fails[i] != "" {
			return nil, BrokenError{"compile", "generated Java code does not compile: " + trunc(strings.ReplaceAll(fails[i], val+"/", ""), 2500)}
		}
		cp += ":" + filepath.Join(dir, fmt.Sprintf("vc%d", i))
	}
	return &JavaBuild{Dir: dir, CP: cp}, nil
}

// javaNames compares the accessors of the stand-ins with protoc's own output.
func (w *Work) javaNames(src, dir string, s *Suite) error {
	out := filepath.Join(dir, "protocjava")
	os.MkdirAll(out, 0o755)
	var all []string
	for _, f := range s.Files {
		all = append(all, f.Path)
	}
	r, err := w.protoc(src, []string{"--java_out=" + out}, all)
	if err != nil {
		return err
	}
	if r.code != 0 {
		return infra("protoc --java_out: %s", tail(r.err, 2000))
	}
	norm := strings.NewReplacer("com.google.protobuf.ProtocolStringList", "java.util.List<String>", " ", "", "\n", "", "@java.lang.Override", "", "java.lang.", "")
	for _, f := range s.Files {
		texts := map[string]string{}
		for p := range f.javaSources() {
			b, err := os.ReadFile(filepath.Join(out, p))
			if err != nil {
				return infra("protoc does not write %s", p)
			}
			texts[p] = norm.Replace(string(b))
		}
		for p, t := range f.javaSources() {
			for _, l := range strings.Split(t, "\n") {
				l = strings.TrimSpace(l)
				if !strings.HasPrefix(l, "public ") || !strings.Contains(l, "() {") || strings.Contains(l, "getNumber") || strings.Contains(l, "getDefaultInstance()") {
					continue
				}
				sig := norm.Replace(l[len("public "):strings.Index(l, " {")])
				if !strings.Contains(texts[p], sig) {
					return infra("stand-in accessor %q of %s is not in protoc's output", sig, p)
				}
			}
		}
	}
	os.RemoveAll(out)
	return nil
}

// ---- running ----

type JavaObs struct {
	Code  byte // T accepted, F ValidationException, U unimplemented, X other, B undecodable
	Field string
	Msg   string
}

// javaDriver runs the Java driver on cs and returns the lines that it logged.
func (w *Work) javaDriver(b *JavaBuild, cs []*Case, mode string, args ...string) ([]string, error) {
	cf, of := filepath.Join(b.Dir, "cases.bin"), filepath.Join(b.Dir, "obs.tsv")
	if err := writeCCCases(cf, cs); err != nil {
		return nil, err
	}
	argv := append([]string{"-Xmx6g", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-cp", b.CP, "verif.Driver", mode, cf, of}, args...)
	r, err := w.run(b.Dir, 8*time.Minute, []string{"LC_ALL=C"}, nil, "java", argv...)
	if err != nil {
		return nil, err
	}
	if r.code != 0 || !strings.Contains(r.out, "DRV-OK") {
		return nil, infra("Java driver: exit %d, timeout %v: %s", r.code, r.timeout, tail(r.err, 3000))
	}
	raw, err := os.ReadFile(of)
	if err != nil {
		return nil, infra("%v", err)
	}
	os.Remove(cf)
	os.Remove(of)
	return strings.Split(string(raw), "\n"), nil
}

func (w *Work) runJava(b *JavaBuild, cs []*Case) (map[int]*JavaObs, error) {
	lines, err := w.javaDriver(b, cs, "run")
	if err != nil {
		return nil, err
	}
	out := map[int]*JavaObs{}
	for _, l := range lines {
		p := strings.Split(l, "\t")
		if len(p) != 4 || p[1] == "" {
			continue
		}
		var id int
		fmt.Sscan(p[0], &id)
		fl, _ := hex.DecodeString(p[2])
		ms, _ := hex.DecodeString(p[3])
		out[id] = &JavaObs{p[1][0], string(fl), string(ms)}
	}
	return out, nil
}
