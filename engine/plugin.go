package main

// Driving the plugin at its own interface: a serialised CodeGeneratorRequest on
// standard input, a CodeGeneratorResponse on standard output.

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type wireF struct {
	num int
	b   []byte
	v   uint64
	wt  int
}

func wireParse(b []byte) (out []wireF, ok bool) {
	for len(b) > 0 {
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return out, false
		}
		b = b[n:]
		f := wireF{num: int(t >> 3), wt: int(t & 7)}
		switch f.wt {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return out, false
			}
			f.v = v
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return out, false
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return out, false
			}
			b = b[4:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return out, false
			}
			f.b = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return out, false
		}
		out = append(out, f)
	}
	return out, true
}

func wireStr(num int, s []byte) []byte {
	b := appendVarint(nil, uint64(num)<<3|2)
	return append(appendVarint(b, uint64(len(s))), s...)
}

// FDSet is a compiled set of .proto files, in protoc's (dependency) order.
type FDSet struct {
	names []string
	raw   map[string][]byte
	deps  map[string][]string
}

func (w *Work) descriptors(src string, files []string, sourceInfo bool) (*FDSet, error) {
	out := filepath.Join(w.Dir, "all.fds")
	fs := &FDSet{raw: map[string][]byte{}, deps: map[string][]string{}}
	for len(files) > 0 {
		n := min(len(files), 4000)
		args := []string{"-o", out, "--include_imports"}
		if sourceInfo {
			args = append(args, "--include_source_info")
		}
		r, err := w.protoc(src, args, files[:n])
		if err != nil {
			return nil, err
		}
		if r.code != 0 {
			return nil, infra("protoc: %s", trunc(r.err, 3000))
		}
		files = files[n:]
		b, err := os.ReadFile(out)
		if err != nil {
			return nil, infra("%v", err)
		}
		top, ok := wireParse(b)
		if !ok {
			return nil, infra("descriptor set does not parse")
		}
		for _, f := range top {
			fs2, ok := wireParse(f.b)
			if f.num != 1 || !ok {
				return nil, infra("descriptor set does not parse")
			}
			var name string
			var deps []string
			for _, x := range fs2 {
				switch x.num {
				case 1:
					name = string(x.b)
				case 3:
					deps = append(deps, string(x.b))
				}
			}
			if _, dup := fs.raw[name]; !dup {
				fs.names = append(fs.names, name)
			}
			fs.raw[name] = f.b
			fs.deps[name] = deps
		}
	}
	return fs, nil
}

// request builds a CodeGeneratorRequest for the targets with their closure.
func (fs *FDSet) request(targets []string, param string) []byte {
	var b []byte
	for _, t := range targets {
		b = append(b, wireStr(1, []byte(t))...)
	}
	if param != "" {
		b = append(b, wireStr(2, []byte(param))...)
	}
	// compiler_version 3.21.12
	b = append(b, wireStr(3, []byte{8, 3, 16, 21, 24, 12})...)
	seen := map[string]bool{}
	var visit func(string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, d := range fs.deps[n] {
			visit(d)
		}
		b = append(b, wireStr(15, fs.raw[n])...)
	}
	for _, t := range targets {
		visit(t)
	}
	return b
}

type GenFile struct{ Name, Insert, Content string }

type PluginRes struct {
	Code     int
	Timeout  bool
	Stderr   string
	Err      string
	HasErr   bool
	Features uint64
	Files    []GenFile
	Parsed   bool
	RawLen   int
}

func (r *PluginRes) failed() bool { return r.Code != 0 || r.HasErr || r.Timeout || !r.Parsed }
func (r *PluginRes) text() string { return r.Stderr + r.Err }

// crashed: the plugin died of a Go panic or signal rather than reporting an error.
func (r *PluginRes) crashed() bool {
	return r.Timeout || r.Code < 0 || strings.Contains(r.Stderr, "\ngoroutine ") || strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: ")
}

func (w *Work) plugin(req []byte) (*PluginRes, error) { return w.pluginBin(w.Plugin, req, nil) }

func (w *Work) pluginBin(bin string, req []byte, env []string) (*PluginRes, error) {
	r, err := w.run(w.Dir, 60*time.Second, env, req, bin)
	if err != nil {
		return nil, err
	}
	p := &PluginRes{Code: r.code, Timeout: r.timeout, Stderr: r.err, RawLen: len(r.out)}
	top, ok := wireParse([]byte(r.out))
	p.Parsed = ok
	for _, f := range top {
		switch f.num {
		case 1:
			p.Err, p.HasErr = string(f.b), true
		case 2:
			p.Features = f.v
		case 15:
			fl, ok := wireParse(f.b)
			p.Parsed = p.Parsed && ok
			g := GenFile{}
			for _, x := range fl {
				switch x.num {
				case 1:
					g.Name = string(x.b)
				case 2:
					g.Insert = string(x.b)
				case 15:
					g.Content = string(x.b)
				}
			}
			p.Files = append(p.Files, g)
		}
	}
	return p, nil
}

// parallel runs f(0..n-1) on eight workers, stopping at the first error.
func parallel(n int, f func(i int) error) error {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if err := f(i); err != nil {
					mu.Lock()
					if first == nil {
						first = err
					}
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return first
}
