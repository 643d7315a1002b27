package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const simName = "__sim"

// repl maps package-level objects to their stand-ins in verif/sim.
var repl = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup",
		"Once": "Once", "Cond": "Cond", "NewCond": "NewCond", "Pool": "Pool",
		"Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue",
		"OnceValues": "OnceValues",
	},
	"time": {
		"Now": "Now", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker",
		"Ticker": "Ticker", "Tick": "Tick", "Since": "Since", "Until": "Until",
	},
	"runtime": {"Gosched": "Gosched"},
	"net":     {"Listen": "Listen", "ListenConfig": "ListenConfig", "Pipe": "NetPipe"},
	"io":      {"Pipe": "IOPipe", "PipeReader": "PipeReader", "PipeWriter": "PipeWriter"},
	"context": {
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause",
		"WithTimeout": "WithTimeout", "WithTimeoutCause": "WithTimeoutCause",
		"WithDeadline": "WithDeadline", "WithDeadlineCause": "WithDeadlineCause",
		"Cause": "Cause", "AfterFunc": "CtxAfterFunc",
	},
	"reflect": {"Select": "ReflectSelect"},
	"iter":    {"Pull": "Pull", "Pull2": "Pull2"},
	"maps":    {"Keys": "RangeKeys", "Values": "RangeValues", "All": "RangeMap"},
}

// unsupported lists objects whose use would escape the simulator.
var unsupported = map[string]map[string]bool{
	"net": {
		"ListenTCP": true, "ListenUnix": true, "ListenPacket": true, "ListenUDP": true,
		"Dial": true, "DialTimeout": true, "DialTCP": true, "Dialer": true,
	},
}

type rw struct {
	p        *pkg
	info     *types.Info
	race     bool
	captured map[types.Object]bool
	tmp      int
	post     []ast.Stmt // statements to add after the current one (race marks)
	postOK   bool
}

func instrument(fset *token.FileSet, p *pkg, race bool) map[string]*ast.File {
	r := &rw{p: p, info: p.info, race: race, captured: map[types.Object]bool{}}
	if race {
		for _, f := range p.files {
			r.findCaptured(f)
		}
	}
	// Where each package-level initialiser lives.
	type place struct {
		spec *ast.ValueSpec
		i    int
		file int
	}
	places := map[ast.Expr]place{}
	var zero []string
	for fi, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, v := range vs.Values {
					places[v] = place{vs, i, fi}
				}
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							zero = append(zero, n.Name)
						}
					}
				}
			}
		}
	}
	files := map[string]*ast.File{}
	inits := 0
	var initNames []string
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				r.fields(x.Recv)
				r.fields(x.Type.TypeParams)
				r.fields(x.Type.Params)
				r.fields(x.Type.Results)
				if x.Body != nil {
					r.block(x.Body)
				}
				if x.Recv == nil && x.Name.Name == "init" {
					n := fmt.Sprintf("__init%d", inits)
					inits++
					x.Name = ast.NewIdent(n)
					initNames = append(initNames, n)
				}
			case *ast.GenDecl:
				r.genDecl(x)
			}
		}
	}
	// Re-initialisation between runs.
	var calls []ast.Stmt
	for _, n := range zero {
		calls = append(calls, &ast.ExprStmt{X: r.call("Zero", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n)})})
	}
	for i, in := range p.info.InitOrder {
		pl, ok := places[in.Rhs]
		if !ok {
			continue
		}
		var lhs []ast.Expr
		named := false
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
			named = named || v.Name() != "_"
		}
		if !named {
			continue
		}
		name := fmt.Sprintf("__vinit%d", i)
		f := p.files[pl.file]
		f.Decls = append(f.Decls, &ast.FuncDecl{
			Name: ast.NewIdent(name),
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{pl.spec.Values[pl.i]}},
			}},
		})
		calls = append(calls, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}})
	}
	var first []ast.Stmt
	for _, n := range initNames {
		c := &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(n)}}
		calls = append(calls, c)
		first = append(first, c)
	}
	for i, f := range p.files {
		r.imports(f)
		clearPos(reflect.ValueOf(f))
		files[p.names[i]] = f
	}
	reset := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: calls}}
	files["zz_sim_reset.go"] = &ast.File{
		Name: ast.NewIdent(p.files[0].Name.Name),
		Decls: []ast.Decl{
			simImport(),
			&ast.FuncDecl{
				Name: ast.NewIdent("init"),
				Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: append(first, &ast.ExprStmt{X: r.call("OnReset", reset)})},
			},
		},
	}
	return files
}

func simImport() *ast.GenDecl {
	return &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
		&ast.ImportSpec{Name: ast.NewIdent(simName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/sim"`}},
	}}
}

// imports drops imports that are no longer used and adds the simulator's.
func (r *rw) imports(f *ast.File) {
	used := map[types.Object]bool{}
	simUsed := false
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if id.Name == simName {
				simUsed = true
			}
			if o, ok := r.info.Uses[id].(*types.PkgName); ok {
				used[o] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	if simUsed {
		decls = append(decls, simImport())
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			var o types.Object
			if is.Name != nil {
				if is.Name.Name == "_" || is.Name.Name == "." {
					decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{is}})
					continue
				}
				o = r.info.Defs[is.Name]
			} else {
				o = r.info.Implicits[is]
			}
			if used[o] {
				is.Doc, is.Comment = nil, nil
				decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{is}})
			}
		}
	}
	f.Decls = decls
	f.Doc, f.Comments = nil, nil
}

// clearPos forgets positions, keeping those that carry syntax.
func clearPos(v reflect.Value) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			switch v.Interface().(type) {
			case *ast.Object, *ast.Scope, *ast.CommentGroup:
				return
			}
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < t.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == reflect.TypeFor[token.Pos]() {
					n := t.Field(i).Name
					if f.Int() != 0 && (n == "Ellipsis" || n == "Assign" || n == "Lparen" && t.Name() == "GenDecl") {
						f.SetInt(1)
					} else {
						f.SetInt(0)
					}
					continue
				}
				if n := t.Field(i).Name; t.Name() == "File" && (n == "Imports" || n == "Unresolved" || n == "Comments" || n == "Scope") {
					continue
				}
				walk(f)
			}
		}
	}
	walk(v)
}

func (r *rw) sim(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(simName), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}

func (r *rw) name() string {
	r.tmp++
	return "__t" + strconv.Itoa(r.tmp)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		// The core type, if there is a single one.
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			switch e := it.EmbeddedType(0).(type) {
			case *types.Union:
				if e.Len() == 1 {
					return e.Term(0).Type().Underlying()
				}
			default:
				return e.Underlying()
			}
		}
	}
	return u
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

func (r *rw) builtin(e ast.Expr) string {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) pkgName(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if p, ok := r.info.Uses[id].(*types.PkgName); ok {
		return p.Imported().Path()
	}
	return ""
}

// ---- declarations and types

func (r *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
		f.Doc, f.Comment = nil, nil
	}
}

func (r *rw) genDecl(g *ast.GenDecl) {
	g.Doc = nil
	for _, s := range g.Specs {
		switch x := s.(type) {
		case *ast.TypeSpec:
			r.fields(x.TypeParams)
			x.Type = r.expr(x.Type)
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
			x.Type = r.expr(x.Type)
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if e := r.recv2(x.Values[0]); e != nil {
					x.Values[0] = e
					continue
				}
			}
			for i := range x.Values {
				x.Values[i] = r.expr(x.Values[i])
			}
		}
	}
}

// recv2 rewrites the operand of a two-value receive.
func (r *rw) recv2(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.call("Recv2", r.expr(u.X))
	}
	return nil
}

// ---- expressions

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && tv.Value != nil {
		return e // constants stay constant
	}
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.BasicLit:
		return e
	case *ast.Ident:
		if r.race && r.sharedVar(x) {
			return r.mark("R", x)
		}
		return e
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.FuncLit:
		r.fields(x.Type.Params)
		r.fields(x.Type.Results)
		r.block(x.Body)
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		isStruct := false
		if t := r.typeOf(x); t != nil {
			u := under(t)
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		return r.selector(x)
	case *ast.IndexExpr:
		if r.isType(x) || r.isType(x.Index) { // instantiation
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		if tv, ok := r.info.Types[x.X]; ok {
			if _, fn := tv.Type.Underlying().(*types.Signature); fn {
				x.X = r.expr(x.X)
				x.Index = r.expr(x.Index)
				return x
			}
		}
		return r.index(x)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		if _, arr := under(r.typeOf(x.X)).(*types.Array); arr {
			x.X = r.lval(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.StarExpr:
		if !r.isType(x) && r.race {
			return r.mark("R", x)
		}
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
		if x.Op == token.AND {
			if _, lit := unparen(x.X).(*ast.CompositeLit); lit {
				x.X = r.expr(x.X)
			} else {
				x.X = r.lval(x.X)
			}
			return x
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.FuncType:
		r.fields(x.TypeParams)
		r.fields(x.Params)
		r.fields(x.Results)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	default:
		fatal("unknown expression %T", e)
	}
	return e
}

// selector rewrites pkg.Name replacements and, under -race, field reads.
func (r *rw) selector(x *ast.SelectorExpr) ast.Expr {
	if p := r.pkgName(x.X); p != "" {
		if unsupported[p][x.Sel.Name] {
			fatal("%s.%s would escape the simulator", p, x.Sel.Name)
		}
		if n := repl[p][x.Sel.Name]; n != "" {
			return r.sim(n)
		}
		if p == "math/rand" || p == "math/rand/v2" {
			if f, ok := r.info.Uses[x.Sel].(*types.Func); ok {
				switch f.Name() {
				case "New", "NewSource", "NewZipf", "NewPCG", "NewChaCha8", "N":
				default:
					src := "Rand"
					if p == "math/rand/v2" {
						src = "Rand2"
					}
					return &ast.SelectorExpr{X: r.call(src), Sel: ast.NewIdent(f.Name())}
				}
			}
		}
		if r.race {
			if _, ok := r.info.Uses[x.Sel].(*types.Var); ok {
				return r.mark("R", x)
			}
		}
		return x
	}
	sel := r.info.Selections[x]
	if sel == nil || sel.Kind() == types.MethodExpr {
		x.X = r.expr(x.X)
		return x
	}
	if sel.Kind() == types.MethodVal {
		// A pointer method on an addressable operand takes its address.
		sig := sel.Obj().Type().(*types.Signature)
		_, ptrRecv := sig.Recv().Type().Underlying().(*types.Pointer)
		_, ptrX := under(sel.Recv()).(*types.Pointer)
		if ptrRecv && !ptrX && r.addressable(x.X) {
			x.X = r.lval(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		return x
	}
	if r.race && r.addressable(x) {
		return r.mark("R", x)
	}
	x.X = r.expr(x.X)
	return x
}

func (r *rw) index(x *ast.IndexExpr) ast.Expr {
	t := under(r.typeOf(x.X))
	if _, ok := t.(*types.Map); ok {
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		if r.race {
			x.X = r.call("MR", x.X)
		}
		return x
	}
	if r.race && r.addressable(x) {
		return r.mark("R", x)
	}
	x.X = r.expr(x.X)
	x.Index = r.expr(x.Index)
	return x
}

// mark wraps the addressable operand e in an access note.
func (r *rw) mark(how string, e ast.Expr) ast.Expr {
	if s, ok := e.(*ast.StarExpr); ok {
		return &ast.ParenExpr{X: &ast.StarExpr{X: r.call(how, r.expr(s.X))}}
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call(how, &ast.UnaryExpr{Op: token.AND, X: r.lval(e)})}}
}

// addressable reports whether e denotes a variable whose address can be taken.
func (r *rw) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		_, ok := r.obj(x).(*types.Var)
		return ok
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.StarExpr:
		return !r.isType(x)
	case *ast.SelectorExpr:
		if r.pkgName(x.X) != "" {
			_, ok := r.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if _, ok := under(sel.Recv()).(*types.Pointer); ok {
			return true
		}
		if sel.Indirect() { // through an embedded pointer
			return true
		}
		return r.addressable(x.X)
	case *ast.IndexExpr:
		switch t := under(r.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.addressable(x.X)
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

func (r *rw) obj(id *ast.Ident) types.Object {
	if o := r.info.Uses[id]; o != nil {
		return o
	}
	return r.info.Defs[id]
}

// lval rewrites e as a variable: its own value is not read here, only what
// leads to it.
func (r *rw) lval(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.lval(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if r.pkgName(x.X) != "" {
			n := r.race
			r.race = false
			y := r.selector(x)
			r.race = n
			return y
		}
		sel := r.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return r.expr(e)
		}
		if _, ok := under(sel.Recv()).(*types.Pointer); ok {
			x.X = r.expr(x.X)
		} else {
			x.X = r.lval(x.X)
		}
		return x
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Array:
			x.X = r.lval(x.X)
		default:
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	}
	return r.expr(e)
}

// sharedVar reports whether an identifier denotes a package-level variable of
// this package or a local variable captured by a function literal.
func (r *rw) sharedVar(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Parent() == r.p.tpkg.Scope() {
		return true
	}
	return r.captured[v]
}

// findCaptured records local variables used in a function literal deeper than
// the one that declares them.
func (r *rw) findCaptured(f *ast.File) {
	declIn := map[types.Object]ast.Node{}
	var stack []ast.Node
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, x)
			ast.Inspect(x.Type, visit)
			ast.Inspect(x.Body, visit)
			stack = stack[:len(stack)-1]
			return false
		case *ast.FuncDecl:
			stack = append(stack, x)
			if x.Recv != nil {
				ast.Inspect(x.Recv, visit)
			}
			ast.Inspect(x.Type, visit)
			if x.Body != nil {
				ast.Inspect(x.Body, visit)
			}
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if len(stack) == 0 {
				return true
			}
			top := stack[len(stack)-1]
			if v, ok := r.info.Defs[x].(*types.Var); ok {
				declIn[v] = top
			}
			if v, ok := r.info.Uses[x].(*types.Var); ok {
				if d, ok := declIn[v]; ok && d != top {
					r.captured[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
}

func (r *rw) callExpr(x *ast.CallExpr) ast.Expr {
	switch b := r.builtin(x.Fun); b {
	case "close":
		return r.call("Close", r.expr(x.Args[0]))
	case "len":
		t := r.typeOf(x.Args[0])
		if isChan(t) {
			return r.call("Len", r.expr(x.Args[0]))
		}
		x.Args[0] = r.expr(x.Args[0])
		if r.race && isMap(t) {
			x.Args[0] = r.call("MR", x.Args[0])
		}
		return x
	case "delete", "clear":
		m := isMap(r.typeOf(x.Args[0]))
		r.exprs(x.Args)
		if r.race && m {
			x.Args[0] = r.call("MW", x.Args[0])
		}
		return x
	case "":
	default:
		if r.race && b == "append" && x.Ellipsis.IsValid() && isBytes(r.typeOf(x.Args[0])) {
			r.exprs(x.Args)
			return r.call("Append", x.Args...)
		}
		if r.race && b == "copy" && isBytes(r.typeOf(x.Args[0])) {
			src := isBytes(r.typeOf(x.Args[1]))
			r.exprs(x.Args)
			x.Args[0] = r.call("Bytes", x.Args[0], ast.NewIdent("true"))
			if src {
				x.Args[1] = r.call("Bytes", x.Args[1], ast.NewIdent("false"))
			}
			return x
		}
		// Constant-valued builtins (unsafe.Sizeof and friends) keep their
		// operands; so do make and new, whose first operand is a type.
		r.exprs(x.Args)
		return x
	}
	if r.race && !r.isType(x.Fun) {
		if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
			if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" {
				r.exprs(x.Args)
				if r.pkgName(s.X) == "" {
					x.Fun = r.selector(s)
				}
				x.Fun = r.call("Atomic", x.Fun)
				return x
			}
		}
	}
	if r.race && r.isType(x.Fun) {
		if t, ok := under(r.typeOf(x.Fun)).(*types.Basic); ok && t.Info()&types.IsString != 0 && isBytes(r.typeOf(x.Args[0])) {
			r.exprs(x.Args)
			x.Args[0] = r.call("Bytes", x.Args[0], ast.NewIdent("false"))
			x.Fun = r.expr(x.Fun)
			return x
		}
	}
	if r.race && !r.isType(x.Fun) {
		if note := r.outside(x); note != nil {
			x.Fun = r.expr(x.Fun)
			r.exprs(x.Args)
			note()
			return x
		}
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	return x
}

// outside prepares notes for a call of code that is not instrumented: of the
// library objects it works on and the bytes it is given.
func (r *rw) outside(x *ast.CallExpr) func() {
	s, ok := unparen(x.Fun).(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	f, ok := r.info.Uses[s.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || strings.Contains(strings.Split(f.Pkg().Path(), "/")[0], ".") {
		return nil
	}
	pkg := f.Pkg().Path()
	sig, ok := f.Type().(*types.Signature)
	if !ok {
		return nil
	}
	truth := func(b bool) ast.Expr {
		if b {
			return ast.NewIdent("true")
		}
		return ast.NewIdent("false")
	}
	// Which way bytes go.
	dir := func(i int) (write, ok bool) {
		switch n := f.Name(); {
		case n == "ReadFull" || n == "ReadAtLeast" || n == "Read" || n == "ReadAt":
			return true, true
		case strings.HasPrefix(n, "PutUint"):
			return true, true
		case n == "Write" || strings.HasPrefix(n, "Uint") || pkg == "bytes" && !strings.HasPrefix(n, "New"):
			return false, true
		}
		return false, false
	}
	var notes []func()
	for i, a := range x.Args {
		t := r.typeOf(a)
		if t == nil {
			continue
		}
		if isBytes(t) {
			if wr, ok := dir(i); ok {
				notes = append(notes, func() { x.Args[i] = r.call("Bytes", x.Args[i], truth(wr)) })
			}
			continue
		}
		switch u := under(t).(type) {
		case *types.Pointer:
			if stdObject(u.Elem()) {
				notes = append(notes, func() { x.Args[i] = r.call("Touch", x.Args[i], truth(true)) })
			}
		case *types.Interface:
			if pkg == "io" || pkg == "encoding/binary" || pkg == "bufio" || pkg == "io/ioutil" {
				if u.NumMethods() > 0 {
					notes = append(notes, func() { x.Args[i] = r.call("Touch", x.Args[i], truth(true)) })
				}
			}
		}
	}
	if sig.Recv() != nil {
		if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal && len(sel.Index()) == 1 {
			write := true
			switch f.Name() {
			case "Len", "Bytes", "String", "Cap", "Available", "Size", "Buffered":
				write = false
			}
			t := r.typeOf(s.X)
			_, isPtr := under(t).(*types.Pointer)
			_, isIface := under(t).(*types.Interface)
			switch {
			case isPtr && stdObject(under(t).(*types.Pointer).Elem()), isIface && f.Name() != "Error":
				notes = append(notes, func() {
					if s2, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
						s2.X = r.call("Touch", s2.X, truth(write))
					}
				})
			case stdObject(t) && r.addressable(s.X):
				notes = append(notes, func() {
					if s2, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
						s2.X = r.call("Touch", &ast.UnaryExpr{Op: token.AND, X: s2.X}, truth(write))
					}
				})
			}
		}
	}
	if len(notes) == 0 {
		return nil
	}
	return func() {
		for _, n := range notes {
			n()
		}
	}
}

// stdObject reports whether t is a type of the standard library whose values
// only one goroutine may use at a time.
func stdObject(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader",
		"bufio.Reader", "bufio.Writer", "bufio.ReadWriter", "bufio.Scanner",
		"container/list.List", "math/rand.Rand", "math/rand/v2.Rand", "io.LimitedReader":
		return true
	}
	return false
}

func isBytes(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// ---- statements

func (r *rw) y() ast.Stmt { return &ast.ExprStmt{X: r.call("Y")} }

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	r.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.y()}
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		want := true
		switch x := s.(type) {
		case *ast.EmptyStmt:
			want = false
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				want = false
			}
		}
		if want {
			out = append(out, r.y())
		}
		savePost, saveOK := r.post, r.postOK
		r.post, r.postOK = nil, true
		ns := r.stmt(s)
		out = append(out, ns)
		out = append(out, r.post...)
		r.post, r.postOK = savePost, saveOK
	}
	return out
}

// simple rewrites a statement in a position where nothing can be added after.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	saveOK := r.postOK
	r.postOK = false
	s = r.stmt(s)
	r.postOK = saveOK
	return s
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: r.call("To", r.expr(x.Chan)), Sel: ast.NewIdent("Send")},
			Args: []ast.Expr{r.expr(x.Value)},
		}}
	case *ast.IncDecStmt:
		r.markWrite(x.X)
		x.X = r.lhs(x.X)
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.asCall(x.Call)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.simple(x.Else)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		x.Assign = r.simple(x.Assign)
		for _, c := range x.Body.List {
			r.stmt(c)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.loopBody(x.Body)
	case *ast.RangeStmt:
		r.rangeStmt(x)
	default:
		fatal("unknown statement %T", s)
	}
	return s
}

func (r *rw) asCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.callExpr(c)
	if c, ok := e.(*ast.CallExpr); ok {
		return c
	}
	fatal("call became %T", e)
	return nil
}

func (r *rw) assign(x *ast.AssignStmt) ast.Stmt {
	if x.Tok != token.DEFINE {
		for _, l := range x.Lhs {
			r.markWrite(l)
		}
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if e := r.recv2(x.Rhs[0]); e != nil {
			x.Rhs[0] = e
			if x.Tok != token.DEFINE {
				for i := range x.Lhs {
					x.Lhs[i] = r.lhs(x.Lhs[i])
				}
			}
			return x
		}
	}
	if x.Tok != token.DEFINE {
		for i := range x.Lhs {
			x.Lhs[i] = r.lhs(x.Lhs[i])
		}
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		// v, ok := m[k] must stay an index expression at the top.
		if ix, ok := unparen(x.Rhs[0]).(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
			x.Rhs[0] = r.index(ix)
			return x
		}
	}
	r.exprs(x.Rhs)
	return x
}

// lhs rewrites an assignment target.
func (r *rw) lhs(e ast.Expr) ast.Expr {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
		ix.X = r.expr(ix.X)
		ix.Index = r.expr(ix.Index)
		return ix
	}
	return r.lval(e)
}

// markWrite queues a write note for after the current statement, if the
// target can be named again without side effects.
func (r *rw) markWrite(e ast.Expr) {
	if !r.race || !r.postOK {
		return
	}
	e = unparen(e)
	if ix, ok := e.(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) && r.pure(ix.X) {
		r.post = append(r.post, &ast.ExprStmt{X: r.call("MW", r.quiet(ix.X))})
		return
	}
	if !r.pure(e) {
		return
	}
	switch x := e.(type) {
	case *ast.Ident:
		if !r.sharedVar(x) {
			return
		}
	case *ast.SelectorExpr, *ast.IndexExpr:
		if !r.addressable(e) {
			return
		}
	case *ast.StarExpr:
		r.post = append(r.post, &ast.ExprStmt{X: r.call("Wr", r.quiet(x.X))})
		return
	default:
		return
	}
	r.post = append(r.post, &ast.ExprStmt{X: r.call("Wr", &ast.UnaryExpr{Op: token.AND, X: r.quiet(e)})})
}

// quiet copies a pure expression.
func (r *rw) quiet(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		y := *x
		if o := r.info.Uses[x]; o != nil {
			r.info.Uses[&y] = o
		}
		return &y
	case *ast.BasicLit:
		y := *x
		return &y
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.quiet(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: r.quiet(x.X), Sel: ast.NewIdent(x.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.quiet(x.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: r.quiet(x.X), Index: r.quiet(x.Index)}
	}
	panic("not pure")
}

func (r *rw) pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return r.pure(x.X)
	case *ast.SelectorExpr:
		return r.pure(x.X)
	case *ast.StarExpr:
		return r.pure(x.X)
	case *ast.IndexExpr:
		// Indexing again could be out of range only if the assignment moved
		// something it is built from; accept plain operands.
		return r.pure(x.X) && r.pure(x.Index)
	}
	return false
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		n := r.name()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(n)
	}
	c := x.Call
	isBuiltin := r.builtin(c.Fun) != ""
	// What the types say has to be asked before anything is rewritten.
	var inline []bool
	tuple := 0
	for _, a := range c.Args {
		tv := r.info.Types[a]
		untyped := tv.IsNil() || tv.Value != nil || tv.IsType()
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			untyped = true
		}
		inline = append(inline, untyped)
		if t, ok := tv.Type.(*types.Tuple); ok {
			tuple = t.Len()
		}
	}
	var call *ast.CallExpr
	if isBuiltin {
		call = r.asCall(c)
	} else {
		c.Fun = r.expr(c.Fun)
		r.exprs(c.Args)
		call = c
		if _, lit := unparen(c.Fun).(*ast.FuncLit); !lit || len(c.Args) > 0 {
			call.Fun = hoist(c.Fun)
		}
	}
	if tuple > 1 && len(call.Args) == 1 {
		var lhs, use []ast.Expr
		for i := 0; i < tuple; i++ {
			n := r.name()
			lhs = append(lhs, ast.NewIdent(n))
			use = append(use, ast.NewIdent(n))
		}
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call.Args[0]}})
		call.Args = use
	} else {
		for i := range call.Args {
			if i < len(inline) && inline[i] {
				continue
			}
			call.Args[i] = hoist(call.Args[i])
		}
	}
	var start ast.Stmt
	if lit, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		start = &ast.ExprStmt{X: r.call("Go", lit)}
	} else {
		start = &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		})}
	}
	if len(pre) == 0 {
		return start
	}
	return &ast.BlockStmt{List: append(pre, start)}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: r.call("Block")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}}
	}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	sel := r.call("Select", ast.NewIdent("false"))
	body := &ast.BlockStmt{}
	hasDefault := false
	n := 0
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		var pre []ast.Stmt
		switch c := cc.Comm.(type) {
		case nil:
			hasDefault = true
			sel.Args[0] = ast.NewIdent("true")
			body.List = append(body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		case *ast.SendStmt:
			v := r.name()
			init.Lhs = append(init.Lhs, ast.NewIdent(v))
			init.Rhs = append(init.Rhs, &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: r.call("SC", r.expr(c.Chan)), Sel: ast.NewIdent("Val")},
				Args: []ast.Expr{r.expr(c.Value)},
			})
			sel.Args = append(sel.Args, ast.NewIdent(v))
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			v := r.name()
			init.Lhs = append(init.Lhs, ast.NewIdent(v))
			init.Rhs = append(init.Rhs, r.call("RecvCase", r.expr(u.X)))
			sel.Args = append(sel.Args, ast.NewIdent(v))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			v := r.name()
			init.Lhs = append(init.Lhs, ast.NewIdent(v))
			init.Rhs = append(init.Rhs, r.call("RecvCase", r.expr(u.X)))
			sel.Args = append(sel.Args, ast.NewIdent(v))
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(v), Sel: ast.NewIdent("V")}}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(v), Sel: ast.NewIdent("OK")})
			}
			lhs := c.Lhs
			if c.Tok != token.DEFINE {
				for i := range lhs {
					lhs[i] = r.lhs(lhs[i])
				}
			}
			allBlank := true
			for _, l := range lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
			}
			tok := c.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
		default:
			fatal("unknown communication clause %T", cc.Comm)
		}
		body.List = append(body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
			Body: append(pre, r.stmts(cc.Body)...),
		})
		n++
	}
	if !hasDefault {
		body.List = append(body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}})
	}
	sw := &ast.SwitchStmt{Tag: sel, Body: body}
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	return sw
}

func (r *rw) rangeStmt(x *ast.RangeStmt) {
	t := r.typeOf(x.X)
	if x.Tok != token.DEFINE && x.Tok != token.ILLEGAL {
		if x.Key != nil {
			x.Key = r.lhs(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lhs(x.Value)
		}
	}
	switch {
	case isChan(t):
		x.X = r.call("Range", r.expr(x.X))
	case isMap(t):
		m := r.expr(x.X)
		if r.race {
			m = r.call("MR", m)
		}
		if x.Value == nil {
			x.X = r.call("RangeKeys", m)
		} else {
			x.X = r.call("RangeMap", m)
		}
	default:
		if _, arr := under(t).(*types.Array); arr && r.addressable(x.X) {
			x.X = r.lval(x.X)
		} else {
			x.X = r.expr(x.X)
		}
	}
	r.loopBody(x.Body)
}
