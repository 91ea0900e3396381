// mutate DIR OUTDIR SEED: writes one-change variants of the non-test Go files
// of the package in DIR. Each becomes OUTDIR/NNNNN.json {file, line, op, text
// before and after} and OUTDIR/NNNNN.go, the whole changed file. A development
// aid: it is how the checks were tried against many small breakages.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Op   string `json:"op"`
	Old  string `json:"old"`
	New  string `json:"new"`
	a, b int
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.MUL_ASSIGN: {"/=", "="}, token.QUO_ASSIGN: {"*=", "="},
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	rng := rand.New(rand.NewSource(seed))
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	var files []*ast.File
	src := map[string][]byte{}
	var keep []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(n)
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files, keep = append(files, f), append(keep, n)
		src[n] = b
	}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg, err := conf.Check("linear", fset, files, info)
	if err != nil {
		panic(err)
	}
	var muts []mut
	for fi, f := range files {
		name := keep[fi]
		text := src[name]
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		add := func(a, b token.Pos, new, op string) {
			m := mut{File: filepath.Base(name), Line: fset.Position(a).Line, Func: fn, Op: op, Old: string(text[off(a):off(b)]), New: new, a: off(a), b: off(b)}
			if m.Old != m.New {
				muts = append(muts, m)
			}
		}
		txt := func(n ast.Node) string { return string(text[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.CONST {
					fn = "const"
					ast.Inspect(gd, func(n ast.Node) bool {
						if l, ok := n.(*ast.BasicLit); ok && (l.Kind == token.FLOAT || l.Kind == token.INT) {
							add(l.Pos(), l.End(), "("+l.Value+"*2)", "const")
							add(l.Pos(), l.End(), "("+l.Value+"/1024)", "const")
						}
						return true
					})
				}
				continue
			}
			fn = fd.Name.Name
			if fn == "String" || fn == "Error" || fn == "Format" {
				continue
			}
			inPanic := map[ast.Node]bool{}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && (strings.HasSuffix(id.Name, "Errorf") || strings.HasSuffix(id.Name, "Error") || strings.HasSuffix(id.Name, "ErrorSimple")) {
						inPanic[n] = true
						return false
					}
				}
				switch x := n.(type) {
				case *ast.BinaryExpr:
					if tv := info.Types[x.X]; tv.Type != nil {
						if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
							break
						}
					}
					for _, s := range swaps[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "binop")
					}
					if x.Op == token.SUB || x.Op == token.QUO || x.Op == token.ADD || x.Op == token.MUL {
						add(x.Pos(), x.End(), txt(x.X), "drop-right")
						add(x.Pos(), x.End(), txt(x.Y), "drop-left")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x.Pos(), x.End(), txt(x.X), "drop-right")
						add(x.Pos(), x.End(), txt(x.Y), "drop-left")
					}
				case *ast.UnaryExpr:
					if x.Op == token.SUB || x.Op == token.NOT {
						add(x.Pos(), x.End(), txt(x.X), "drop-unary")
					}
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "(false && ("+txt(x.Cond)+"))", "if-false")
					add(x.Cond.Pos(), x.Cond.End(), "(true || ("+txt(x.Cond)+"))", "if-true")
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						add(x.Pos(), x.End(), "("+x.Value+"+1)", "int")
						if x.Value != "0" {
							add(x.Pos(), x.End(), "("+x.Value+"-1)", "int")
						}
					case token.FLOAT:
						add(x.Pos(), x.End(), "("+x.Value+"+1)", "float")
						add(x.Pos(), x.End(), "("+x.Value+"*0.5)", "float")
						add(x.Pos(), x.End(), "("+x.Value+"*64)", "float")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, s := range swaps[x.Tok] {
							add(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, "assignop")
						}
						lhs := make([]string, len(x.Lhs))
						for i := range lhs {
							lhs[i] = "_"
						}
						if x.Tok == token.ASSIGN {
							add(x.Pos(), x.TokPos, strings.Join(lhs, ", ")+" ", "drop-assign")
						} else {
							add(x.Pos(), x.TokPos+token.Pos(len(x.Tok.String())), "_ =", "drop-assign")
						}
					}
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "func() {}()", "drop-stmt")
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						add(x.TokPos, x.TokPos+2, "+= 2", "incdec")
					}
					add(x.Pos(), x.End(), "_ = "+txt(x.X), "incdec")
				case *ast.BranchStmt:
					if x.Label == nil {
						add(x.Pos(), x.End(), "func() {}()", "drop-branch")
						if x.Tok == token.CONTINUE {
							add(x.Pos(), x.End(), "break", "branch")
						} else if x.Tok == token.BREAK {
							add(x.Pos(), x.End(), "continue", "branch")
						}
					}
				case *ast.CallExpr:
					t := txt(x.Fun)
					if len(x.Args) == 1 && (t == "math.Abs" || t == "math.Sqrt") {
						add(x.Pos(), x.End(), "("+txt(x.Args[0])+")", "drop-call")
					}
					if t == "math.Max" || t == "math.Min" || t == "math.Hypot" {
						o := map[string]string{"math.Max": "math.Min", "math.Min": "math.Max", "math.Hypot": "math.Max"}[t]
						add(x.Fun.Pos(), x.Fun.End(), o, "maxmin")
						add(x.Pos(), x.End(), txt(x.Args[0]), "drop-arg")
						add(x.Pos(), x.End(), txt(x.Args[1]), "drop-arg")
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (s.Sel.Name == "Copy" || s.Sel.Name == "Transpose") {
						add(x.Pos(), x.End(), txt(s.X), "drop-copy")
					}
					for i := 0; i+1 < len(x.Args); i++ {
						ti, tj := info.Types[x.Args[i]].Type, info.Types[x.Args[i+1]].Type
						if ti != nil && tj != nil && types.Identical(ti, tj) && t != "math.Max" && t != "math.Min" {
							add(x.Args[i].Pos(), x.Args[i+1].End(), txt(x.Args[i+1])+string(text[off(x.Args[i].End()):off(x.Args[i+1].Pos())])+txt(x.Args[i]), "swap-args")
						}
					}
				case *ast.IndexExpr:
					if tv := info.Types[x.Index]; tv.Value == nil {
						if in, ok := x.X.(*ast.IndexExpr); ok {
							add(in.Index.Pos(), x.Index.End(), txt(x.Index)+string(text[off(in.Index.End()):off(x.Index.Pos())])+txt(in.Index), "swap-index")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil && x.High != nil {
						add(x.Low.Pos(), x.Low.End(), "("+txt(x.Low)+"+1)", "slice")
					}
				case *ast.Ident:
					obj, ok := info.Uses[x].(*types.Var)
					if !ok || obj.IsField() || obj.Parent() == nil || obj.Parent() == pkg.Scope() {
						break
					}
					// another variable of the same type in scope
					var cands []string
					seen := map[string]bool{}
					for sc := pkg.Scope().Innermost(x.Pos()); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
						for _, nm := range sc.Names() {
							v, ok := sc.Lookup(nm).(*types.Var)
							if !ok || seen[nm] || v == obj || v.Pos() > x.Pos() && v.Pos() > fd.Body.Pos() || nm == "_" {
								continue
							}
							seen[nm] = true
							if types.Identical(v.Type(), obj.Type()) {
								cands = append(cands, nm)
							}
						}
					}
					if len(cands) > 0 {
						sort.Strings(cands)
						add(x.Pos(), x.End(), cands[rng.Intn(len(cands))], "ident")
					}
				}
				return true
			})
		}
	}
	os.MkdirAll(out, 0o755)
	for i, m := range muts {
		b := src[filepath.Join(dir, m.File)]
		var o []byte
		o = append(o, b[:m.a]...)
		o = append(o, m.New...)
		o = append(o, b[m.b:]...)
		os.WriteFile(fmt.Sprintf("%s/%05d.go", out, i), o, 0o644)
		j, _ := json.Marshal(m)
		os.WriteFile(fmt.Sprintf("%s/%05d.json", out, i), j, 0o644)
	}
	fmt.Println(len(muts))
}
