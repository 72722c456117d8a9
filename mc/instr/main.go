// instr copies the non-test sources of a Go module into a scratch module and rewrites them so that every source of
// nondeterminism and every shared-memory access goes through the controlled runtime zzmc/mc. The rewriting is driven
// by types, never by names of the code under test.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Standard   bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
		Dir       string
	}
	Error *struct{ Err string }
}

var (
	srcDir  = flag.String("src", "/repo", "module to instrument")
	dstDir  = flag.String("dst", "", "scratch module")
	rtDir   = flag.String("rt", "", "runtime module (zzmc)")
	level   = flag.Int("level", 3, "3: all accesses, 2: maps only, 1: no accesses")
	mainFn  = flag.String("mainfn", "ZZMain", "new name of func main")
	verbose = flag.Bool("v", false, "")
)

// packages of the standard library that are copied and instrumented
var copied = map[string]bool{"container/list": true, "container/heap": true, "container/ring": true, "context": true}

// packages with per-object state of a dependency, copied together, and the highest access level
var textPkgs = map[string]int{"golang.org/x/text/transform": 3, "golang.org/x/text/runes": 3, "golang.org/x/text/unicode/norm": 1}

// packages replaced name by name; the value is the directory under zzmc
var shims = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "os": "os", "io/ioutil": "ioutil", "path/filepath": "filepath",
	"log": "log", "math/rand": "rand", "math/rand/v2": "rand", "runtime": "runtime", "fmt": "fmt", "compress/gzip": "gzip",
	"net/http": "http",
}

var shimNames = map[string]map[string]bool{}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func loadShims() {
	for p, d := range shims {
		m := map[string]bool{}
		fs := token.NewFileSet()
		pk, err := parser.ParseDir(fs, filepath.Join(*rtDir, d), nil, 0)
		if err != nil {
			die("%v", err)
		}
		for _, pkg := range pk {
			for _, f := range pkg.Files {
				for _, dcl := range f.Decls {
					switch dcl := dcl.(type) {
					case *ast.FuncDecl:
						if dcl.Recv == nil && dcl.Name.IsExported() {
							m[dcl.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range dcl.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								m[s.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range s.Names {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		shimNames[p] = m
	}
}

func main() {
	flag.Parse()
	loadShims()
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,EmbedFiles,Standard,Module,Error", "./...")
	cmd.Dir = *srcDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	var mod string
	goVersion := "go1.19"
	for _, p := range order {
		if p.Module != nil && p.Module.Main {
			mod = p.Module.Path
			if p.Module.GoVersion != "" {
				goVersion = "go" + p.Module.GoVersion
			}
		}
	}
	if mod == "" {
		die("no main module")
	}
	// std packages to copy: those the module uses, plus what copies need
	var todo []*listPkg
	for _, p := range order {
		if copied[p.ImportPath] || (p.Module != nil && p.Module.Main) {
			todo = append(todo, p)
		}
	}
	usesCopied := map[string]bool{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})
	// which copied packages are imported by the module
	for _, p := range todo {
		if p.Standard {
			continue
		}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, f), nil, parser.ImportsOnly)
			if err != nil {
				die("%v", err)
			}
			for _, im := range af.Imports {
				usesCopied[strings.Trim(im.Path.Value, `"`)] = true
			}
		}
	}
	text := false
	for p := range usesCopied {
		if _, ok := textPkgs[p]; ok {
			text = true
		}
	}
	for p := range usesCopied {
		if _, ok := textPkgs[p]; !ok && strings.HasPrefix(p, "golang.org/x/text/") {
			text = false // its types may not fit the copies
		}
	}
	for p := range textPkgs {
		if pkgs[p] != nil && text {
			copied[p], usesCopied[p], pkgs[p].Standard = true, true, true
			todo = append(todo, pkgs[p])
		} else {
			delete(usesCopied, p)
		}
	}
	n := 0
	for _, p := range todo {
		if p.Standard && !usesCopied[p.ImportPath] {
			continue
		}
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
		r := &rewriter{fset: fset, mod: mod, level: *level, pkg: p, usesCopied: usesCopied}
		if l, ok := textPkgs[p.ImportPath]; ok && l < r.level {
			r.level = l
		}
		if p.Standard {
			r.goVersion = ""
		} else {
			r.goVersion = goVersion
		}
		r.run(imp)
		n++
	}
	// module file
	gm, err := os.ReadFile(filepath.Join(*srcDir, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm = append(gm, []byte(fmt.Sprintf("\nrequire zzmc v0.0.0\nreplace zzmc => %s\n", *rtDir))...)
	write("go.mod", gm)
	if gs, err := os.ReadFile(filepath.Join(*srcDir, "go.sum")); err == nil {
		write("go.sum", gs)
	}
	if *verbose {
		fmt.Printf("instrumented %d packages of %s at level %d\n", n, mod, *level)
	}
	fmt.Println(mod)
}

func write(rel string, b []byte) {
	p := filepath.Join(*dstDir, rel)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

func sortedKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

var _ = types.Universe
