// Command mutate makes small changes to Go files, to measure what the checks
// notice. It reads files named on the command line and writes one changed copy
// of a file per mutant: OUT/NNNN.go, and a line "NNNN<TAB>FILE<TAB>LINE<TAB>WHAT".
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

var (
	out  = flag.String("out", "", "output directory")
	root = flag.String("root", "/repo", "repository")
	n    int
)

func main() {
	flag.Parse()
	os.MkdirAll(*out, 0o777)
	for _, f := range flag.Args() {
		mutateFile(f)
	}
}

func mutateFile(name string) {
	b, err := os.ReadFile(filepath.Join(*root, name))
	if err != nil {
		panic(err)
	}
	src := string(b)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(x ast.Node) string { return src[off(x.Pos()):off(x.End())] }
	emit := func(at ast.Node, what string, eds ...edit) {
		s := src
		// edits come sorted by descending position
		for _, e := range eds {
			s = s[:e.from] + e.text + s[e.to:]
		}
		id := fmt.Sprintf("%04d", n)
		n++
		if err := os.WriteFile(filepath.Join(*out, id+".go"), []byte(s), 0o666); err != nil {
			panic(err)
		}
		what = strings.Join(strings.Fields(what), " ")
		if len(what) > 110 {
			what = what[:110] + "..."
		}
		fmt.Printf("%s\t%s\t%d\t%s\n", id, name, fset.Position(at.Pos()).Line, what)
	}
	repl := func(x ast.Node, t string) edit { return edit{off(x.Pos()), off(x.End()), t} }

	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
				emit(s, "delete: "+text(s), repl(s, ""))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					// keep operands used
					t := ""
					for _, r := range x.Rhs {
						_ = r
					}
					emit(s, "delete: "+text(s), repl(s, t))
				}
			case *ast.IfStmt:
				if x.Else == nil {
					emit(s, "delete: "+text(s), repl(s, ""))
				}
			case *ast.ReturnStmt:
				if i > 0 || len(list) > 1 || true {
					if len(x.Results) == 0 {
						emit(s, "delete: return", repl(s, ""))
					}
				}
			case *ast.ForStmt, *ast.RangeStmt:
				emit(s, "delete: "+text(s), repl(s, ""))
			}
			if g, ok := s.(*ast.GoStmt); ok {
				emit(s, "no go: "+text(s), repl(s, text(g.Call)))
			}
			if d, ok := s.(*ast.DeferStmt); ok {
				emit(s, "no defer: "+text(s), repl(s, text(d.Call)))
				// delete together with the statement before (Lock)
				if i > 0 {
					emit(s, "delete both: "+text(list[i-1])+"; "+text(s), repl(s, ""), repl(list[i-1], ""))
				}
			}
			if e, ok := s.(*ast.ExprStmt); ok {
				if _, ok := e.X.(*ast.CallExpr); ok {
					emit(s, "go: "+text(s), repl(s, "go "+text(s)))
				}
			}
			if i+1 < len(list) {
				t := list[i+1]
				switch t.(type) {
				case *ast.ReturnStmt, *ast.BranchStmt:
				default:
					emit(s, "swap: "+text(s)+" <> "+text(t), repl(t, text(s)), repl(s, text(t)))
				}
			}
			if i+2 < len(list) {
				switch list[i+2].(type) {
				case *ast.ReturnStmt, *ast.BranchStmt:
				default:
					emit(s, "move down 2: "+text(s), edit{off(list[i+2].End()), off(list[i+2].End()), "\n" + text(s)}, repl(s, ""))
				}
			}
		}
	}
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"},
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if x.List != nil {
				emit(x, "delete case: "+text(x), repl(x, ""))
			}
		case *ast.CommClause:
			stmts(x.Body)
			emit(x, "delete case: "+text(x), repl(x, ""))
		case *ast.SelectStmt:
			has := false
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					has = true
				}
			}
			if !has {
				emit(x, "add default: "+text(x), edit{off(x.Body.Rbrace), off(x.Body.Rbrace), "default:\n"})
			}
		case *ast.IfStmt:
			emit(x, "negate: "+text(x.Cond), repl(x.Cond, "!("+text(x.Cond)+")"))
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x, "false: "+text(x.Cond), repl(x.Cond, "false && "+text(x.Cond)))
			}
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				p := off(x.OpPos)
				emit(x, text(x)+" => "+o, edit{p, p + len(x.Op.String()), o})
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x, text(x)+" => left only", repl(x, text(x.X)))
				emit(x, text(x)+" => right only", repl(x, text(x.Y)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					emit(x, x.Value+" => +1", repl(x, fmt.Sprint(v+1)))
					emit(x, x.Value+" => -1", repl(x, fmt.Sprint(v-1)))
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				emit(x, x.Value+" => changed", repl(x, x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:]))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x, text(x)+" => without !", repl(x, text(x.X)))
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name != "nil" {
					emit(x, text(x)+" => nil for "+id.Name, repl(r, "nil"))
					if id.Name == "true" {
						emit(x, "false", repl(r, "false"))
					}
					if id.Name == "false" {
						emit(x, "true", repl(r, "true"))
					}
				}
				if s := text(r); strings.HasPrefix(s, "err") || strings.HasPrefix(s, "Err") || strings.HasPrefix(s, "io.") {
					if _, ok := r.(*ast.Ident); !ok {
						emit(x, text(x)+" => nil", repl(r, "nil"))
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 1 {
				if _, ok := x.Args[0].(*ast.ChanType); ok {
					for _, k := range []string{"1", "8"} {
						emit(x, text(x)+" => buffered "+k, edit{off(x.Rparen), off(x.Rparen), ", " + k})
					}
				}
			}
			// swap two adjacent arguments
			for i := 0; i+1 < len(x.Args); i++ {
				emit(x, text(x)+" => swap args", repl(x.Args[i+1], text(x.Args[i])), repl(x.Args[i], text(x.Args[i+1])))
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit(x, text(x)+" => no low", repl(x.Low, ""))
			}
			if x.High != nil {
				emit(x, text(x)+" => no high", repl(x.High, ""))
			}
		case *ast.KeyValueExpr:
			emit(x, "drop field: "+text(x), repl(x, ""))
			emit(x, "drop field,: "+text(x), edit{off(x.Pos()), min(off(x.End())+1, len(src)), ""})
		}
		return true
	})
}
