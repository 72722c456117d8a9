package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type rewriter struct {
	fset       *token.FileSet
	mod        string
	goVersion  string
	level      int
	pkg        *listPkg
	usesCopied map[string]bool

	info  *types.Info
	tpkg  *types.Package
	files []*ast.File

	// per file
	src      []byte
	base     int
	fname    string
	need     map[string]string // alias -> import path
	usedPkg  map[*types.PkgName]bool
	shared   map[*types.Var]bool // captured and written
	noRec    map[ast.Expr]bool   // do not record an access at this node
	parents  map[ast.Node]ast.Node
	nTmp     int
	initN    int
	loopVarW map[ast.Node]string
}

func (r *rewriter) isMain() bool { return r.pkg.Name == "main" }

func (r *rewriter) run(imp types.Importer) {
	p := r.pkg
	var srcs [][]byte
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(r.fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		r.files = append(r.files, af)
		srcs = append(srcs, b)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: imp, GoVersion: r.goVersion, Sizes: types.SizesFor("gc", "amd64"), Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, r.fset, r.files, r.info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	r.tpkg = tp
	r.findShared()
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, r.mod), "/")
	if p.Standard {
		rel = "zzstd/" + p.ImportPath
	}
	var inits []string
	for i, f := range r.files {
		text, in := r.file(f, srcs[i], p.GoFiles[i])
		inits = append(inits, in...)
		write(filepath.Join(rel, p.GoFiles[i]), []byte(text))
	}
	for _, e := range p.EmbedFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, e))
		if err == nil {
			write(filepath.Join(rel, e), b)
		}
	}
	if !p.Standard {
		r.resetFile(rel, srcs, inits)
	}
}

// findShared marks variables that are captured by a function literal and written after their declaration.
func (r *rewriter) findShared() {
	r.shared = map[*types.Var]bool{}
	captured := map[*types.Var]bool{}
	written := map[*types.Var]bool{}
	declFn := map[*types.Var]ast.Node{}
	for _, f := range r.files {
		var stack []ast.Node
		var fns []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				switch top.(type) {
				case *ast.FuncDecl, *ast.FuncLit:
					fns = fns[:len(fns)-1]
				}
				return true
			}
			stack = append(stack, n)
			switch n := n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				fns = append(fns, n)
			case *ast.Ident:
				if v, ok := r.info.Defs[n].(*types.Var); ok && len(fns) > 0 {
					declFn[v] = fns[len(fns)-1]
				}
				if v, ok := r.info.Uses[n].(*types.Var); ok && len(fns) > 0 {
					if d := declFn[v]; d != nil && d != fns[len(fns)-1] {
						captured[v] = true
					}
				}
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						r.markWritten(l, written)
					}
				} else {
					for _, l := range n.Lhs {
						if id, ok := l.(*ast.Ident); ok && r.info.Defs[id] == nil {
							r.markWritten(l, written)
						}
					}
				}
			case *ast.IncDecStmt:
				r.markWritten(n.X, written)
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{n.Key, n.Value} {
					if id, ok := e.(*ast.Ident); ok {
						if v, ok := r.info.Defs[id].(*types.Var); ok {
							written[v] = true
						} else {
							r.markWritten(e, written)
						}
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					r.markWritten(n.X, written)
				}
			}
			return true
		})
	}
	for v := range captured {
		if written[v] {
			r.shared[v] = true
		}
	}
}

func (r *rewriter) markWritten(e ast.Expr, w map[*types.Var]bool) {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if v, ok := r.info.Uses[e].(*types.Var); ok {
			w[v] = true
		}
		if v, ok := r.info.Defs[e].(*types.Var); ok {
			w[v] = true
		}
	case *ast.SelectorExpr:
		if _, ok := r.typeOf(e.X).Underlying().(*types.Pointer); !ok {
			r.markWritten(e.X, w)
		}
	case *ast.IndexExpr:
		if _, ok := r.typeOf(e.X).Underlying().(*types.Array); ok {
			r.markWritten(e.X, w)
		}
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func (r *rewriter) file(f *ast.File, src []byte, name string) (string, []string) {
	r.src, r.fname = src, name
	r.base = r.fset.File(f.Pos()).Base()
	r.need = map[string]string{}
	r.usedPkg = map[*types.PkgName]bool{}
	r.noRec = map[ast.Expr]bool{}
	r.parents = map[ast.Node]ast.Node{}
	r.loopVarW = map[ast.Node]string{}
	var stack []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			r.parents[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})
	r.markNoRec(f)
	var inits []string
	// body first, so that the imports it needs are known
	var body strings.Builder
	var firstDecl token.Pos = f.Name.End()
	pos := f.Name.End()
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			if g.End() > firstDecl {
				firstDecl = g.End()
			}
			pos = g.End()
			continue
		}
	}
	pos = firstDecl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		body.WriteString(r.text(pos, d.Pos()))
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && !r.pkg.Standard {
			n := fmt.Sprintf("zzInit%d_%s", r.initN, sanitize(name))
			r.initN++
			inits = append(inits, n)
			body.WriteString(r.renderRename(fd, n))
		} else if ok && fd.Recv == nil && fd.Name.Name == "main" && r.isMain() {
			body.WriteString(r.renderRename(fd, *mainFn))
		} else {
			body.WriteString(r.render(d))
		}
		pos = d.End()
	}
	body.WriteString(r.text(pos, token.Pos(r.base+len(src))))
	// header
	var h strings.Builder
	if r.pkg.Standard {
		h.WriteString("//go:build go1.23\n\n") // language version of the copy, whatever the module's
	}
	for _, line := range strings.SplitAfter(r.text(token.Pos(r.base), f.Name.End()), "\n") {
		if r.pkg.Standard && (strings.HasPrefix(line, "//go:build") || strings.HasPrefix(line, "// +build")) {
			continue // go list chose the file already
		}
		h.WriteString(line)
	}
	h.WriteString("\n\n")
	for _, is := range f.Imports {
		var pn *types.PkgName
		if is.Name != nil {
			pn, _ = r.info.Defs[is.Name].(*types.PkgName)
		} else {
			pn, _ = r.info.Implicits[is].(*types.PkgName)
		}
		path := strings.Trim(is.Path.Value, `"`)
		outPath := path
		if r.pkg.Standard && path == "internal/reflectlite" {
			outPath = "reflect"
		}
		nm := ""
		if is.Name != nil {
			nm = is.Name.Name
		} else if pn != nil && filepath.Base(outPath) != pn.Name() {
			nm = pn.Name()
		}
		if copied[path] && r.usesCopied[path] && nm != "_" && nm != "." {
			outPath = r.mod + "/zzstd/" + path
		} else if pn != nil && nm != "_" && nm != "." && !r.usedPkg[pn] {
			nm = "_"
		}
		fmt.Fprintf(&h, "import %s %q\n", nm, outPath)
	}
	var al []string
	for a := range r.need {
		al = append(al, a)
	}
	sort.Strings(al)
	for _, a := range al {
		fmt.Fprintf(&h, "import %s %q\n", a, r.need[a])
	}
	return h.String() + body.String(), inits
}

func sanitize(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			return c
		}
		return '_'
	}, s)
}

func (r *rewriter) text(a, b token.Pos) string {
	if b < a {
		return ""
	}
	return string(r.src[int(a)-r.base : int(b)-r.base])
}

func (r *rewriter) site(n ast.Node) string {
	p := r.fset.Position(n.Pos())
	rel := strings.TrimPrefix(strings.TrimPrefix(r.pkg.ImportPath, r.mod), "/")
	if rel != "" {
		rel += "/"
	}
	return fmt.Sprintf("%q", fmt.Sprintf("%s%s:%d", rel, r.fname, p.Line))
}

func (r *rewriter) mc() string {
	r.need["zzmc_"] = "zzmc/mc"
	return "zzmc_"
}

func (r *rewriter) tmp() string {
	r.nTmp++
	return fmt.Sprintf("zz%d", r.nTmp)
}

func (r *rewriter) renderRename(fd *ast.FuncDecl, name string) string {
	s := r.text(fd.Pos(), fd.Name.Pos()) + name
	s += r.render(fd.Type.Params)
	pos := fd.Type.Params.End()
	s += r.text(pos, fd.Body.Pos()) + r.render(fd.Body)
	return s
}

// children returns the direct child nodes in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			out = append(out, c)
		}
		return false
	})
	var keep []ast.Node
	for _, c := range out {
		switch c.(type) {
		case *ast.CommentGroup, *ast.Comment:
			continue
		}
		keep = append(keep, c)
	}
	sort.SliceStable(keep, func(i, j int) bool { return keep[i].Pos() < keep[j].Pos() })
	return keep
}

// plain copies the node's text with its children rewritten.
func (r *rewriter) plain(n ast.Node) string {
	var b strings.Builder
	pos := n.Pos()
	for _, c := range children(n) {
		if c.Pos() < pos { // e.g. FuncDecl.Type starts at the func keyword
			continue
		}
		b.WriteString(r.text(pos, c.Pos()))
		b.WriteString(r.render(c))
		pos = c.End()
	}
	b.WriteString(r.text(pos, n.End()))
	return b.String()
}

func (r *rewriter) render(n ast.Node) string {
	switch n := n.(type) {
	case *ast.FuncDecl:
		return r.funcDecl(n)
	case *ast.Ident:
		return r.ident(n)
	case *ast.SelectorExpr:
		return r.selector(n)
	case *ast.IndexExpr:
		return r.index(n)
	case *ast.StarExpr:
		return r.star(n)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return r.chanView(n.X) + ".Recv()"
		}
		return r.plain(n)
	case *ast.SendStmt:
		return r.chanView(n.Chan) + ".Send(" + r.render(n.Value) + ")"
	case *ast.CallExpr:
		return r.call(n)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.AssignStmt:
		return r.assign(n)
	case *ast.IncDecStmt:
		return r.incdec(n)
	case *ast.ValueSpec:
		return r.valueSpec(n)
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.SelectStmt:
		return r.selectStmt(n, "")
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, n.Label.Name)
		}
		return n.Label.Name + r.text(n.Label.End(), n.Stmt.Pos()) + r.render(n.Stmt)
	case *ast.CompositeLit:
		return r.composite(n)
	case *ast.BranchStmt:
		return r.text(n.Pos(), n.End())
	case *ast.BasicLit:
		return n.Value
	}
	return r.plain(n)
}

func (r *rewriter) funcDecl(fd *ast.FuncDecl) string {
	var b strings.Builder
	pos := fd.Pos()
	emit := func(n ast.Node) {
		b.WriteString(r.text(pos, n.Pos()))
		b.WriteString(r.render(n))
		pos = n.End()
	}
	if fd.Doc != nil {
		b.WriteString(r.text(fd.Pos(), fd.Doc.End()))
		pos = fd.Doc.End()
	}
	if fd.Recv != nil {
		emit(fd.Recv)
	}
	b.WriteString(r.text(pos, fd.Name.End()))
	pos = fd.Name.End()
	if fd.Type.TypeParams != nil {
		emit(fd.Type.TypeParams)
	}
	emit(fd.Type.Params)
	if fd.Type.Results != nil {
		emit(fd.Type.Results)
	}
	if fd.Body != nil {
		emit(fd.Body)
	}
	b.WriteString(r.text(pos, fd.End()))
	return b.String()
}

// ---- names of replaced packages ----

func (r *rewriter) shimRef(path, name string) (string, bool) {
	if path == "github.com/google/uuid" {
		switch name {
		case "NewString":
			return r.mc() + ".UID", true
		}
		return "", false
	}
	if m, ok := shimNames[path]; ok && m[name] && name != "Serve" && name != "ServeListener" {
		alias := "zz_" + shims[path]
		if path == "math/rand/v2" {
			alias = "zz_rand"
		}
		r.need[alias] = "zzmc/" + shims[path]
		return alias + "." + name, true
	}
	if path == "net/http" && name == "Serve" {
		r.need["zz_http"] = "zzmc/http"
		return "zz_http.ServeListener", true
	}
	return "", false
}

func (r *rewriter) ident(id *ast.Ident) string {
	obj := r.info.Uses[id]
	if pn, ok := obj.(*types.PkgName); ok {
		r.usedPkg[pn] = true
		return id.Name
	}
	if obj != nil && obj.Pkg() != nil && obj.Pkg() != r.tpkg && obj.Parent() == obj.Pkg().Scope() {
		// dot import
		if _, isSel := r.parents[id].(*ast.SelectorExpr); !isSel || r.parents[id].(*ast.SelectorExpr).X == id {
			if s, ok := r.shimRef(obj.Pkg().Path(), id.Name); ok {
				return s
			}
		}
	}
	if v, ok := obj.(*types.Var); ok && r.recordVar(id, v) {
		return fmt.Sprintf("(*%s.FR(&%s, %s))", r.mc(), id.Name, r.site(id))
	}
	return id.Name
}

func (r *rewriter) isGlobal(v *types.Var) bool {
	return v.Pkg() == r.tpkg && v.Parent() == r.tpkg.Scope()
}

func (r *rewriter) recordVar(id ast.Expr, v *types.Var) bool {
	if r.level < 3 || r.noRec[id] || v.IsField() {
		return false
	}
	if !r.isGlobal(v) && !r.shared[v] {
		return false
	}
	return !r.syncType(v.Type())
}

// syncType: values of these types are never recorded (the runtime itself orders them).
func (r *rewriter) syncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		_ = u
	case *types.Tuple:
		return true
	case *types.Struct:
		if u.NumFields() == 0 {
			return true
		}
	}
	return false
}

func (r *rewriter) pkgOf(e ast.Expr) (*types.PkgName, bool) {
	id, ok := e.(*ast.Ident)
	if !ok {
		return nil, false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	return pn, ok
}

func (r *rewriter) selector(s *ast.SelectorExpr) string {
	if pn, ok := r.pkgOf(s.X); ok {
		path := pn.Imported().Path()
		if path == "github.com/google/uuid" {
			r.usedPkg[pn] = true
			switch s.Sel.Name {
			case "New":
				return fmt.Sprintf("%s.UUIDOf[%s.UUID]", r.mc(), pn.Name())
			case "NewRandom", "NewUUID", "NewV6", "NewV7":
				return fmt.Sprintf("%s.UUIDErr[%s.UUID]", r.mc(), pn.Name())
			}
		}
		if !(copied[path] && r.usesCopied[path]) {
			if t, ok := r.shimRef(path, s.Sel.Name); ok {
				return t
			}
		}
		r.usedPkg[pn] = true
		return r.render(s.X) + "." + s.Sel.Name
	}
	txt := r.render(s.X) + "." + s.Sel.Name
	if r.recordField(s) {
		return fmt.Sprintf("(*%s.FR(&%s, %s))", r.mc(), txt, r.site(s))
	}
	return txt
}

// recordField: s is a field reached through a pointer (or a field of a shared variable).
func (r *rewriter) recordField(s *ast.SelectorExpr) bool {
	if r.level < 3 || r.noRec[s] {
		return false
	}
	sel := r.info.Selections[s]
	if sel == nil || sel.Kind() != types.FieldVal {
		return false
	}
	return !r.syncType(sel.Type()) && r.addressable(s)
}

// addressable: e denotes memory that other goroutines can reach.
func (r *rewriter) addressable(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && !v.IsField() && (r.isGlobal(v) || r.shared[v])
	case *ast.SelectorExpr:
		if pn, ok := r.pkgOf(e.X); ok {
			_ = pn
			v, ok := r.info.Uses[e.Sel].(*types.Var)
			return ok && v != nil && false
		}
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() {
			return true
		}
		return r.addressable(e.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch t := r.typeOf(e.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.addressable(e.X)
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

// markNoRec finds the places where an operand is not read itself.
func (r *rewriter) markNoRec(f *ast.File) {
	var chain func(e ast.Expr)
	// chain: e is only addressed, so neither it nor the value path below it is read
	chain = func(e ast.Expr) {
		e2 := ast.Unparen(e)
		r.noRec[e2] = true
		switch e := e2.(type) {
		case *ast.SelectorExpr:
			if sel := r.info.Selections[e]; sel != nil {
				if _, ptr := r.typeOf(e.X).Underlying().(*types.Pointer); !ptr {
					chain(e.X)
				}
			}
		case *ast.IndexExpr:
			if _, ok := r.typeOf(e.X).Underlying().(*types.Array); ok {
				chain(e.X)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				chain(n.X)
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				chain(l)
			}
		case *ast.IncDecStmt:
			chain(n.X)
		case *ast.RangeStmt:
			if n.Key != nil {
				chain(n.Key)
			}
			if n.Value != nil {
				chain(n.Value)
			}
		case *ast.SelectorExpr:
			sel := r.info.Selections[n]
			if sel == nil {
				break
			}
			_, xptr := r.typeOf(n.X).Underlying().(*types.Pointer)
			_, xif := r.typeOf(n.X).Underlying().(*types.Interface)
			switch sel.Kind() {
			case types.FieldVal:
				if !xptr {
					chain(n.X) // the longer path is recorded instead
				}
			case types.MethodVal:
				// receiver taken by address
				if fn, ok := sel.Obj().(*types.Func); ok && !xptr && !xif {
					if rv := fn.Type().(*types.Signature).Recv(); rv != nil {
						if _, ok := rv.Type().(*types.Pointer); ok {
							chain(n.X)
						}
					}
				}
			}
		case *ast.SliceExpr:
			if _, ok := r.typeOf(n.X).Underlying().(*types.Array); ok {
				chain(n.X)
			}
		case *ast.IndexExpr:
			if _, ok := r.typeOf(n.X).Underlying().(*types.Array); ok {
				chain(n.X)
			}
		case *ast.KeyValueExpr:
			// struct literal keys are field names
			if id, ok := n.Key.(*ast.Ident); ok {
				if v, ok := r.info.Uses[id].(*types.Var); ok && v.IsField() {
					r.noRec[n.Key] = true
				}
			}
		}
		return true
	})
}

func (r *rewriter) composite(c *ast.CompositeLit) string {
	return r.plain(c)
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// index: reads of map entries and slice elements. IndexExpr may also be an instantiation.
func (r *rewriter) index(n *ast.IndexExpr) string {
	if tv, ok := r.info.Types[n.X]; ok && tv.IsType() {
		return r.plain(n)
	}
	if _, ok := r.typeOf(n.X).Underlying().(*types.Signature); ok {
		return r.plain(n)
	}
	if r.isMap(n.X) && r.level >= 2 {
		fn := "MR"
		if r.noRec[n] {
			fn = "" // written: recorded by the statement
		}
		if fn != "" {
			return fmt.Sprintf("%s.%s(%s, %s)[%s]", r.mc(), fn, r.render(n.X), r.site(n), r.render(n.Index))
		}
		return r.plain(n)
	}
	if r.level >= 3 && !r.noRec[n] && r.addressable(n) {
		return fmt.Sprintf("(*%s.FR(&%s, %s))", r.mc(), r.plain(n), r.site(n))
	}
	return r.plain(n)
}

func (r *rewriter) star(n *ast.StarExpr) string {
	if tv, ok := r.info.Types[n]; ok && tv.IsType() {
		return r.plain(n)
	}
	if r.level >= 3 && !r.noRec[n] && !r.syncType(r.typeOf(n)) {
		return fmt.Sprintf("(*%s.FR(%s, %s))", r.mc(), r.render(n.X), r.site(n))
	}
	return r.plain(n)
}

// ---- channels ----

func (r *rewriter) chanDir(e ast.Expr) string {
	c, ok := r.typeOf(e).Underlying().(*types.Chan)
	if !ok {
		return "ChanOf"
	}
	switch c.Dir() {
	case types.SendOnly:
		return "ChanS"
	case types.RecvOnly:
		return "ChanR"
	}
	return "ChanOf"
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := r.typeOf(e).Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) chanView(e ast.Expr) string {
	return fmt.Sprintf("%s.%s(%s)", r.mc(), r.chanDir(e), r.render(e))
}

// recvRHS: e is a receive used in a two-value context.
func (r *rewriter) recv2(e ast.Expr) (string, bool) {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.chanView(u.X) + ".Recv2()", true
	}
	return "", false
}

func (r *rewriter) builtin(e ast.Expr) string {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) namedIs(t types.Type, path, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	} else if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func (r *rewriter) call(n *ast.CallExpr) string {
	switch r.builtin(n.Fun) {
	case "close":
		return r.chanView(n.Args[0]) + ".Close()"
	case "len":
		if r.isChan(n.Args[0]) {
			return r.chanView(n.Args[0]) + ".Len()"
		}
		if r.isMap(n.Args[0]) && r.level >= 2 {
			return fmt.Sprintf("len(%s.MR(%s, %s))", r.mc(), r.render(n.Args[0]), r.site(n))
		}
	case "delete":
		if r.isMap(n.Args[0]) && r.level >= 2 {
			return fmt.Sprintf("delete(%s.MW(%s, %s), %s)", r.mc(), r.render(n.Args[0]), r.site(n), r.render(n.Args[1]))
		}
	case "clear":
		if r.isMap(n.Args[0]) && r.level >= 2 {
			return fmt.Sprintf("clear(%s.MW(%s, %s))", r.mc(), r.render(n.Args[0]), r.site(n))
		}
	}
	// servers
	if s, ok := n.Fun.(*ast.SelectorExpr); ok {
		if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
			rt := r.typeOf(s.X)
			if r.namedIs(rt, "github.com/gin-gonic/gin", "Engine") && strings.HasPrefix(s.Sel.Name, "Run") {
				r.need["zz_http"] = "zzmc/http"
				return "zz_http.Serve(" + r.render(s.X) + ")"
			}
			if r.namedIs(rt, "net/http", "Server") && (strings.HasPrefix(s.Sel.Name, "ListenAndServe") || strings.HasPrefix(s.Sel.Name, "Serve")) {
				r.need["zz_http"] = "zzmc/http"
				return "zz_http.Serve((" + r.render(s.X) + ").Handler)"
			}
		}
	}
	return r.plain(n)
}

// ---- statements ----

func (r *rewriter) constOrNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	c := n.Call
	var pre []string
	fn := ""
	fun := ast.Unparen(c.Fun)
	// a generic function instantiated by inference, a package-level function, a builtin or a literal is called directly
	direct := false
	switch f := fun.(type) {
	case *ast.FuncLit:
		direct = true
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			direct = true
		}
	case *ast.SelectorExpr:
		if _, ok := r.pkgOf(f.X); ok {
			if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
				direct = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	if s, ok := fun.(*ast.SelectorExpr); ok && !direct {
		if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
			if r.namedIs(r.typeOf(s.X), "github.com/gin-gonic/gin", "Engine") || r.namedIs(r.typeOf(s.X), "net/http", "Server") {
				direct = true
			}
		}
	}
	if direct {
		fn = ""
	} else {
		fn = r.tmp()
		pre = append(pre, fmt.Sprintf("%s := %s", fn, r.render(c.Fun)))
	}
	args := make([]string, len(c.Args))
	builtin := r.builtin(c.Fun)
	var callTxt string
	if len(c.Args) == 1 {
		if t, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
			var vs []string
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, r.tmp())
			}
			pre = append(pre, strings.Join(vs, ", ")+" := "+r.render(c.Args[0]))
			args = vs
			goto done
		}
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		_, isLit := ast.Unparen(a).(*ast.FuncLit)
		if r.constOrNil(a) || tv.IsType() || isLit || builtin == "close" && false {
			args[i] = r.render(a)
			continue
		}
		v := r.tmp()
		pre = append(pre, fmt.Sprintf("%s := %s", v, r.render(a)))
		args[i] = v
	}
done:
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	switch {
	case builtin == "close":
		callTxt = fmt.Sprintf("%s.%s(%s).Close()", r.mc(), r.chanDir(c.Args[0]), args[0])
	case builtin == "delete" && r.level >= 2:
		callTxt = fmt.Sprintf("delete(%s.MW(%s, %s), %s)", r.mc(), args[0], r.site(n), args[1])
	case direct:
		if s, ok := fun.(*ast.SelectorExpr); ok && r.info.Selections[s] != nil {
			callTxt = r.call(c)
			pre = nil
		} else {
			callTxt = r.render(c.Fun) + "(" + strings.Join(args, ", ") + ell + ")"
		}
	default:
		callTxt = fn + "(" + strings.Join(args, ", ") + ell + ")"
	}
	if builtin == "recover" || builtin == "print" || builtin == "println" {
		callTxt = r.render(c.Fun) + "(" + strings.Join(args, ", ") + ")"
	}
	return fmt.Sprintf("{ %s%s.Go(%s, func() { %s }) }", joinStmts(pre), r.mc(), r.site(n), callTxt)
}

func joinStmts(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return strings.Join(p, "; ") + "; "
}

// pure: evaluating e twice is harmless.
func (r *rewriter) pure(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.StarExpr:
		return r.pure(e.X)
	case *ast.TypeAssertExpr:
		return e.Type != nil && r.pure(e.X)
	case *ast.IndexExpr:
		return r.pure(e.X) && r.pure(e.Index)
	case *ast.BinaryExpr:
		return r.pure(e.X) && r.pure(e.Y)
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && e.Op != token.AND && r.pure(e.X)
	case *ast.CallExpr:
		// conversions and len
		if tv, ok := r.info.Types[e.Fun]; ok && tv.IsType() && len(e.Args) == 1 {
			return r.pure(e.Args[0])
		}
		if b := r.builtin(e.Fun); b == "len" || b == "cap" {
			return r.pure(e.Args[0])
		}
	}
	return false
}

// inList: the statement stands in a statement list, so others can be put next to it.
func (r *rewriter) inList(n ast.Node) bool {
	switch p := r.parents[n].(type) {
	case *ast.BlockStmt:
		return true
	case *ast.CaseClause:
		for _, s := range p.Body {
			if s == n {
				return true
			}
		}
	case *ast.CommClause:
		for _, s := range p.Body {
			if s == n {
				return true
			}
		}
	}
	return false
}

// writeRecs returns statements recording the writes to the left-hand sides.
func (r *rewriter) writeRecs(lhs []ast.Expr, define bool) []string {
	var out []string
	for _, l := range lhs {
		l = ast.Unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			v, _ := r.info.Uses[id].(*types.Var)
			if v == nil {
				continue // newly defined
			}
			if r.level >= 3 && (r.isGlobal(v) || r.shared[v]) && !r.syncType(v.Type()) {
				out = append(out, fmt.Sprintf("%s.W(&%s, %s)", r.mc(), id.Name, r.site(l)))
			}
			continue
		}
		if !r.pure(l) {
			continue
		}
		if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) {
			if r.level >= 2 {
				out = append(out, fmt.Sprintf("%s.MWs(%s, %s)", r.mc(), r.plainText(ix.X), r.site(l)))
			}
			continue
		}
		if r.level >= 3 && r.addressable(l) && !r.syncType(r.typeOf(l)) {
			out = append(out, fmt.Sprintf("%s.W(&%s, %s)", r.mc(), r.plainText(l), r.site(l)))
		}
	}
	return out
}

// plainText renders e without recording its accesses (names of replaced packages are still replaced).
func (r *rewriter) plainText(e ast.Expr) string {
	save := r.level
	r.level = 0
	s := r.render(e)
	r.level = save
	return s
}

func (r *rewriter) assign(n *ast.AssignStmt) string {
	var lhs []string
	for _, l := range n.Lhs {
		lhs = append(lhs, r.render(l))
	}
	var rhs []string
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		if s, ok := r.recv2(n.Rhs[0]); ok {
			rhs = []string{s}
		}
	}
	if rhs == nil {
		for _, e := range n.Rhs {
			rhs = append(rhs, r.render(e))
		}
	}
	// x op= y reads x first; a lone x = append(x, ...) reads through its right-hand side
	s := strings.Join(lhs, ", ") + " " + n.Tok.String() + " " + strings.Join(rhs, ", ")
	if !r.inList(n) {
		return s
	}
	recs := r.writeRecs(n.Lhs, n.Tok == token.DEFINE)
	if len(recs) > 0 {
		// with several targets, one assignment may change what another target's expression denotes
		if len(n.Lhs) > 1 {
			assigned := map[string]bool{}
			for _, l := range n.Lhs {
				if id, ok := ast.Unparen(l).(*ast.Ident); ok {
					assigned[id.Name] = true
				}
			}
			recs = nil
			for _, l := range n.Lhs {
				clash := false
				if _, ok := ast.Unparen(l).(*ast.Ident); !ok {
					ast.Inspect(l, func(c ast.Node) bool {
						if id, ok := c.(*ast.Ident); ok && assigned[id.Name] {
							clash = true
						}
						return true
					})
				}
				if !clash {
					recs = append(recs, r.writeRecs([]ast.Expr{l}, false)...)
				}
			}
		}
	}
	if len(recs) > 0 {
		s += "; " + strings.Join(recs, "; ")
	}
	return s
}

func (r *rewriter) incdec(n *ast.IncDecStmt) string {
	s := r.render(n.X) + n.Tok.String()
	if r.inList(n) {
		if recs := r.writeRecs([]ast.Expr{n.X}, false); len(recs) > 0 {
			s += "; " + strings.Join(recs, "; ")
		}
	}
	return s
}

func (r *rewriter) valueSpec(n *ast.ValueSpec) string {
	if len(n.Names) == 2 && len(n.Values) == 1 {
		if s, ok := r.recv2(n.Values[0]); ok {
			return r.text(n.Pos(), n.Values[0].Pos()) + s
		}
	}
	var b strings.Builder
	pos := n.Pos()
	if n.Doc != nil {
		pos = n.Names[0].Pos()
	}
	for i := range n.Names {
		b.WriteString(r.text(pos, n.Names[i].End()))
		pos = n.Names[i].End()
	}
	if n.Type != nil {
		b.WriteString(r.text(pos, n.Type.Pos()))
		b.WriteString(r.render(n.Type))
		pos = n.Type.End()
	}
	for _, v := range n.Values {
		b.WriteString(r.text(pos, v.Pos()))
		b.WriteString(r.render(v))
		pos = v.End()
	}
	return b.String()
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) string {
	isChan, isMap := r.isChan(n.X), r.isMap(n.X)
	body := r.render(n.Body)
	var recs []string
	if n.Tok == token.DEFINE {
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
				if v, ok := r.info.Defs[id].(*types.Var); ok && r.shared[v] && r.level >= 3 && !r.syncType(v.Type()) && r.oldLoopVar() {
					recs = append(recs, fmt.Sprintf("%s.W(&%s, %s)", r.mc(), id.Name, r.site(id)))
				}
			}
		}
	}
	if len(recs) > 0 {
		body = "{ " + strings.Join(recs, "; ") + "; " + strings.TrimPrefix(body, "{")
	}
	if !isChan && !isMap {
		x := r.render(n.X)
		if _, ok := r.typeOf(n.X).Underlying().(*types.Slice); ok && r.level >= 3 && !blank(n.Value) {
			x = fmt.Sprintf("%s.SR(%s, %s)", r.mc(), x, r.site(n.X))
		}
		h := "for "
		if n.Key != nil {
			h += r.render(n.Key)
			if n.Value != nil {
				h += ", " + r.render(n.Value)
			}
			h += " " + n.Tok.String() + " "
		}
		return h + "range " + x + " " + body
	}
	it := r.tmp()
	p := func(e ast.Expr) string {
		if blank(e) {
			return "nil"
		}
		return "&" + r.render(e)
	}
	if isChan {
		if n.Tok == token.DEFINE && !blank(n.Key) {
			k := n.Key.(*ast.Ident).Name
			return fmt.Sprintf("for %s, %s := %s.It(); %s.Next(&%s); %s", it, k, r.chanView(n.X), it, k, body)
		}
		return fmt.Sprintf("for %s := %s; %s.Next(%s); %s", it, r.chanView(n.X), it, p(n.Key), body)
	}
	mapX, site := r.render(n.X), r.site(n.X)
	if n.Tok == token.DEFINE {
		switch {
		case !blank(n.Key) && !blank(n.Value):
			k, v := n.Key.(*ast.Ident).Name, n.Value.(*ast.Ident).Name
			return fmt.Sprintf("for %s, %s, %s := %s.MapIt(%s, %s); %s.Next(&%s, &%s); %s", it, k, v, r.mc(), mapX, site, it, k, v, body)
		case !blank(n.Key):
			k := n.Key.(*ast.Ident).Name
			return fmt.Sprintf("for %s, %s := %s.MapItK(%s, %s); %s.Next(&%s, nil); %s", it, k, r.mc(), mapX, site, it, k, body)
		case !blank(n.Value):
			v := n.Value.(*ast.Ident).Name
			return fmt.Sprintf("for %s, %s := %s.MapItV(%s, %s); %s.Next(nil, &%s); %s", it, v, r.mc(), mapX, site, it, v, body)
		}
	}
	return fmt.Sprintf("for %s := %s.MapIt1(%s, %s); %s.Next(%s, %s); %s", it, r.mc(), mapX, site, it, p(n.Key), p(n.Value), body)
}

// oldLoopVar: loop variables are shared by the iterations (Go before 1.22).
func (r *rewriter) oldLoopVar() bool {
	var a, b int
	fmt.Sscanf(strings.TrimPrefix(r.goVersion, "go"), "%d.%d", &a, &b)
	return a == 1 && b < 22 && b > 0
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label string) string {
	var pre, cases, clauses []string
	def := false
	sel := r.tmp()
	i := 0
	for _, cl := range n.Body.List {
		c := cl.(*ast.CommClause)
		var head, bind string
		if c.Comm == nil {
			def = true
			head = "default:"
		} else {
			cv := r.tmp()
			var recv ast.Expr
			switch s := c.Comm.(type) {
			case *ast.SendStmt:
				sv := r.tmp()
				pre = append(pre, fmt.Sprintf("%s := %s", cv, r.chanView(s.Chan)))
				pre = append(pre, fmt.Sprintf("%s := %s.SendCase(%s)", sv, cv, r.render(s.Value)))
				cases = append(cases, sv)
			case *ast.ExprStmt:
				recv = s.X
			case *ast.AssignStmt:
				recv = s.Rhs[0]
				var l []string
				for _, e := range s.Lhs {
					l = append(l, r.render(e))
				}
				m := "Val"
				if len(l) == 2 {
					m = "Val2"
				}
				bind = fmt.Sprintf("%s %s %s.%s(%s)", strings.Join(l, ", "), s.Tok, cv, m, sel)
				if recs := r.writeRecs(s.Lhs, false); len(recs) > 0 {
					bind += "; " + strings.Join(recs, "; ")
				}
			}
			if recv != nil {
				u := ast.Unparen(recv).(*ast.UnaryExpr)
				pre = append(pre, fmt.Sprintf("%s := %s", cv, r.chanView(u.X)))
				cases = append(cases, cv+".RecvCase()")
			}
			head = fmt.Sprintf("case %d:", i)
			i++
		}
		b := head + "\n"
		if bind != "" {
			b += bind + "\n"
		}
		for _, s := range c.Body {
			b += r.render(s) + "\n"
		}
		clauses = append(clauses, b)
	}
	if !def {
		clauses = append(clauses, "default:\npanic(\"unreachable\")\n")
	}
	lab := ""
	if label != "" {
		lab = label + ": "
	}
	cs := ""
	if len(cases) > 0 {
		cs = ", " + strings.Join(cases, ", ")
	}
	return fmt.Sprintf("{ %s%sswitch %s := %s.Select(%v%s); %s.Index {\n%s} }", joinStmts(pre), lab, sel, r.mc(), def, cs, sel, strings.Join(clauses, ""))
}

// ---- package state ----

func (r *rewriter) resetFile(rel string, srcs [][]byte, inits []string) {
	var b strings.Builder
	r.need = map[string]string{}
	// variables without initialiser
	initd := map[*types.Var]bool{}
	for _, in := range r.info.InitOrder {
		for _, v := range in.Lhs {
			initd[v] = true
		}
	}
	// initialisers are rendered in their own file (its imports apply), as functions
	byFile := map[int][]string{}
	var calls []string
	fileOf := func(p token.Pos) int {
		for i, f := range r.files {
			if f.FileStart <= p && p <= f.FileEnd {
				return i
			}
		}
		return -1
	}
	k := 0
	for _, in := range r.info.InitOrder {
		var l []string
		skip := true
		for _, v := range in.Lhs {
			l = append(l, v.Name())
			if v.Name() != "_" {
				skip = false
			}
		}
		if skip {
			continue
		}
		fi := fileOf(in.Rhs.Pos())
		if fi < 0 {
			continue
		}
		name := fmt.Sprintf("zzVar%d", k)
		k++
		r.src, r.fname = srcs[fi], r.pkg.GoFiles[fi]
		r.base = r.fset.File(r.files[fi].Pos()).Base()
		rhs := r.render(in.Rhs)
		byFile[fi] = append(byFile[fi], fmt.Sprintf("func %s() { %s = %s }", name, strings.Join(l, ", "), rhs))
		calls = append(calls, name+"()")
	}
	for fi, fs := range byFile {
		p := filepath.Join(*dstDir, rel, r.pkg.GoFiles[fi])
		old, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(rel, r.pkg.GoFiles[fi]), append(old, []byte("\n"+strings.Join(fs, "\n")+"\n")...))
	}
	sc := r.tpkg.Scope()
	var zero []string
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !initd[v] {
			zero = append(zero, fmt.Sprintf("zzmc_.Zero(&%s)", n))
		}
	}
	all := append(zero, calls...)
	for _, n := range inits {
		all = append(all, n+"()")
	}
	fmt.Fprintf(&b, "package %s\n\nimport zzmc_ \"zzmc/mc\"\n\n", r.pkg.Name)
	if len(inits) > 0 {
		b.WriteString("func init() {\n")
		for _, n := range inits {
			b.WriteString("\t" + n + "()\n")
		}
		b.WriteString("}\n\n")
	}
	b.WriteString("func init() {\n\tzzmc_.RegisterReset(func() {\n")
	for _, s := range all {
		b.WriteString("\t\t" + s + "\n")
	}
	b.WriteString("\t})\n}\n")
	if r.pkg.Module != nil && r.pkg.Module.Main {
		var vars []string
		for _, n := range sc.Names() {
			if _, ok := sc.Lookup(n).(*types.Var); ok && n != "_" {
				vars = append(vars, "&"+n)
			}
		}
		if len(vars) > 0 {
			fmt.Fprintf(&b, "\nfunc init() {\n\tzzmc_.RegisterVars(%s)\n}\n", strings.Join(vars, ", "))
		}
	}
	write(filepath.Join(rel, "zz_reset.go"), []byte(b.String()))
}
