// Command instr rewrites Go packages so that everything nondeterministic in
// them goes through verif/sim: goroutine starts, channel operations, selects,
// locks, clocks, timers, randomness, map iteration order and listening
// sockets. It also adds a preemption point before every statement and, with
// -race, notes every access to shared memory. It works from types, not from
// names or text, so it follows whatever the code looks like today.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

type pkg struct {
	path   string
	dir    string
	files  []*ast.File
	names  []string
	deps   []string // imports inside the instrumented trees
	std    []string
	tpkg   *types.Package
	info   *types.Info
	copyOf bool // type-checked but written by someone else
}

type loader struct {
	fset  *token.FileSet
	roots map[string]string // module path -> directory
	plain map[string]bool   // module paths that are not instrumented
	pkgs  map[string]*pkg
	order []*pkg
	std   map[string]bool
	gc    types.Importer
}

func (l *loader) find(path string) (dir string, plain, ok bool) {
	for m, d := range l.roots {
		if path == m || strings.HasPrefix(path, m+"/") {
			return filepath.Join(d, strings.TrimPrefix(path, m)), l.plain[m], true
		}
	}
	return "", false, false
}

func (l *loader) load(path string) *pkg {
	if p := l.pkgs[path]; p != nil {
		return p
	}
	dir, plain, ok := l.find(path)
	if !ok {
		fatal("cannot resolve import %q", path)
	}
	p := &pkg{path: path, dir: dir, copyOf: plain}
	l.pkgs[path] = p
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		fatal("%v", err)
	}
	if len(bp.CgoFiles) > 0 {
		fatal("%s uses cgo", path)
	}
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(l.fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		p.files = append(p.files, af)
		p.names = append(p.names, f)
		for _, im := range af.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if _, _, ok := l.find(ip); ok {
				p.deps = append(p.deps, ip)
			} else if strings.Contains(strings.Split(ip, "/")[0], ".") {
				fatal("%s imports %q, which is not available", path, ip)
			} else {
				l.std[ip] = true
			}
		}
	}
	for _, d := range p.deps {
		l.load(d)
	}
	l.order = append(l.order, p)
	return p
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := l.pkgs[path]; p != nil {
		if p.tpkg == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return p.tpkg, nil
	}
	return l.gc.Import(path)
}

func (l *loader) check() {
	var std []string
	for s := range l.std {
		std = append(std, s)
	}
	sort.Strings(std)
	exports := map[string]string{}
	if len(std) > 0 {
		cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Export"}, std...)...)
		cmd.Dir = os.TempDir()
		cmd.Env = append(os.Environ(), "GOFLAGS=", "GO111MODULE=off")
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err != nil {
			fatal("go list: %v", err)
		}
		dec := json.NewDecoder(bytes.NewReader(out))
		for {
			var e struct{ ImportPath, Export string }
			if err := dec.Decode(&e); err == io.EOF {
				break
			} else if err != nil {
				fatal("go list output: %v", err)
			}
			exports[e.ImportPath] = e.Export
		}
	}
	l.gc = importer.ForCompiler(l.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	for _, p := range l.order {
		p.info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: l, Sizes: types.SizesFor("gc", build.Default.GOARCH)}
		t, err := conf.Check(p.path, l.fset, p.files, p.info)
		if err != nil {
			fatal("%v", err)
		}
		p.tpkg = t
	}
}

func main() {
	out := flag.String("out", "", "output directory (module root of the instrumented copy)")
	mod := flag.String("mod", "", "module path of the source tree")
	src := flag.String("src", "", "source tree")
	extra := flag.String("plain", "", "comma separated path=dir modules to resolve but not instrument")
	race := flag.Bool("race", false, "note shared memory accesses")
	flag.Parse()
	l := &loader{
		fset:  token.NewFileSet(),
		roots: map[string]string{*mod: *src},
		plain: map[string]bool{},
		pkgs:  map[string]*pkg{},
		std:   map[string]bool{},
	}
	if *extra != "" {
		for _, kv := range strings.Split(*extra, ",") {
			k, v, _ := strings.Cut(kv, "=")
			l.roots[k] = v
			l.plain[k] = true
		}
	}
	for _, a := range flag.Args() {
		l.load(*mod + "/" + a)
	}
	l.check()
	for _, p := range l.order {
		if p.copyOf {
			continue
		}
		dir := filepath.Join(*out, strings.TrimPrefix(p.path, *mod))
		if err := os.MkdirAll(dir, 0o777); err != nil {
			fatal("%v", err)
		}
		files := instrument(l.fset, p, *race)
		for name, f := range files {
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				fatal("printing %s: %v", name, err)
			}
			if err := os.WriteFile(filepath.Join(dir, name), b.Bytes(), 0o666); err != nil {
				fatal("%v", err)
			}
		}
		fmt.Println(p.path)
	}
}
