package conc

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	gotypes "go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vsPath = "github.com/google/licensecheck/verif/vs"

// An edit replaces src[from:to].
type edit struct {
	from, to int
	text     string
}

// instrument makes instrumented copies of the packages below out and returns
// the overlay, where the code uses something the scheduler does not control
// (timers, contexts), if anywhere, and whether the LRE hook was added.
func instrument(repo, out string, points bool, keep map[string]bool) (overlay string, chans string, hook bool, npoints int, err error) {
	repl := map[string]string{}
	var dirs []string
	filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		if b := filepath.Base(path); path != repo && (b == "testdata" || b == "vendor" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_")) {
			return filepath.SkipDir
		}
		dirs = append(dirs, path)
		return nil
	})
	for _, pkg := range dirs {
		names, _ := filepath.Glob(filepath.Join(pkg, "*.go"))
		fset := token.NewFileSet()
		var srcs [][]byte
		var files []*ast.File
		var used []string
		anyChan := false
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				return "", "", false, 0, err
			}
			f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				return "", "", false, 0, err
			}
			if f.Name.Name == "main" {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ChanType); ok {
					anyChan = true
				}
				return true
			})
			srcs, files, used = append(srcs, src), append(files, f), append(used, name)
		}
		chanOf := map[ast.Expr]bool{}
		if anyChan {
			// Imports are not needed to tell which expressions are channels made here.
			info := &gotypes.Info{Types: map[ast.Expr]gotypes.TypeAndValue{}}
			conf := gotypes.Config{Error: func(error) {}, Importer: noImport{}}
			conf.Check(pkg, fset, files, info)
			for e, tv := range info.Types {
				if tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*gotypes.Chan); ok {
						chanOf[e] = true
					}
				}
			}
		}
		for i, f := range files {
			src, name := srcs[i], used[i]
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			var edits []edit
			big := len(src) > 1<<20
			if big {
				edits = shrink(f, off, keep)
			}
			uses, ops := false, false
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				var to, name string
				switch p {
				case "sync":
					to, name = vsPath+"/vsync", "sync"
				case "sync/atomic":
					to, name = vsPath+"/vatomic", "atomic"
				default:
					continue
				}
				if im.Name != nil {
					name = im.Name.Name
				}
				edits = append(edits, edit{off(im.Pos()), off(im.End()), name + " " + strconv.Quote(to)})
			}
			stmts := func(list []ast.Stmt) {
				if !points || big {
					return
				}
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					uses = true
					npoints++
					edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "verif_vs.Point(); "})
				}
			}
			var visit func(n ast.Node) bool
			// call turns the expression e into fn(e).
			call := func(from, to token.Pos, fn string) {
				uses, ops = true, true
				edits = append(edits, edit{off(from), off(from) + int(to-from), "verif_vs." + fn + "("})
			}
			end := func(at token.Pos) { edits = append(edits, edit{off(at), off(at), ")"}) }
			recv := func(x *ast.UnaryExpr, fn string) {
				call(x.OpPos, x.OpPos+2, fn)
				end(x.X.End())
				ast.Inspect(x.X, visit)
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			visit = func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.SendStmt:
					call(n.Chan.Pos(), n.Chan.Pos(), "Send")
					ast.Inspect(n.Chan, visit)
					edits = append(edits, edit{off(n.Chan.End()), off(n.Value.Pos()), ")("})
					ast.Inspect(n.Value, visit)
					end(n.Value.End())
					return false
				case *ast.AssignStmt:
					if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
						if x := arrow(n.Rhs[0]); x != nil {
							ast.Inspect(n.Lhs[0], visit)
							ast.Inspect(n.Lhs[1], visit)
							recv(x, "Recv2")
							return false
						}
					}
				case *ast.ValueSpec:
					if len(n.Names) == 2 && len(n.Values) == 1 {
						if x := arrow(n.Values[0]); x != nil {
							recv(x, "Recv2")
							return false
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.ARROW {
						recv(n, "Recv")
						return false
					}
				case *ast.RangeStmt:
					if _, ok := chanOf[n.X]; ok {
						uses, ops = true, true
						edits = append(edits, edit{off(n.For) + 3, off(n.X.Pos()), " verif_c := "})
						ast.Inspect(n.X, visit)
						head := "_, verif_ok := "
						switch {
						case n.Key != nil && n.Tok == token.DEFINE:
							head = text(n.Key) + ", verif_ok := "
						case n.Key != nil:
							head = "var verif_ok bool; " + text(n.Key) + ", verif_ok = "
						}
						edits = append(edits, edit{off(n.X.End()), off(n.Body.Lbrace) + 1, "; ; { " + head + "verif_vs.Recv2(verif_c); if !verif_ok { break }; "})
						ast.Inspect(n.Body, visit)
						return false
					}
				case *ast.SelectStmt:
					uses, ops = true, true
					var names, vals, arms []string
					def := false
					for i, s := range n.Body.List {
						c := s.(*ast.CommClause)
						name := "verif_c" + strconv.Itoa(i)
						arm := "case " + strconv.Itoa(len(names)) + ":"
						var of ast.Node
						switch k := c.Comm.(type) {
						case nil:
							def = true
							arm = ""
						case *ast.SendStmt:
							of = k
							vals = append(vals, "verif_vs.SendCase("+text(k.Chan)+")("+text(k.Value)+")")
						case *ast.ExprStmt:
							of = arrow(k.X).X
							vals = append(vals, "verif_vs.RecvCase("+text(of)+")")
						case *ast.AssignStmt:
							of = arrow(k.Rhs[0]).X
							vals = append(vals, "verif_vs.RecvCase("+text(of)+")")
							arm += " " + text(k.Lhs[0])
							if len(k.Lhs) == 2 {
								arm += ", " + text(k.Lhs[1]) + " " + k.Tok.String() + " " + name + ".V, " + name + ".OK;"
							} else {
								arm += " " + k.Tok.String() + " " + name + ".V;"
							}
						}
						if of != nil {
							names = append(names, name)
							ast.Inspect(of, func(n ast.Node) bool {
								switch n := n.(type) {
								case *ast.FuncLit:
									chans = fset.Position(n.Pos()).String() + ": function in a select"
								case *ast.UnaryExpr:
									if n.Op == token.ARROW {
										chans = fset.Position(n.Pos()).String() + ": receive in a select"
									}
								}
								return true
							})
						}
						arms = append(arms, arm)
					}
					head := "switch "
					if len(names) > 0 {
						head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
					}
					head += "verif_vs.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ") {"
					edits = append(edits, edit{off(n.Select), off(n.Body.Lbrace) + 1, head})
					for i, s := range n.Body.List {
						c := s.(*ast.CommClause)
						if arms[i] != "" {
							edits = append(edits, edit{off(c.Case), off(c.Colon) + 1, arms[i]})
						}
						stmts(c.Body)
						for _, b := range c.Body {
							ast.Inspect(b, visit)
						}
					}
					if !def {
						edits = append(edits, edit{off(n.Body.Rbrace), off(n.Body.Rbrace), "default: panic(\"vs\");"})
					}
					return false
				case *ast.CallExpr:
					if f, ok := n.Fun.(*ast.Ident); ok && f.Name == "close" && f.Obj == nil && len(n.Args) == 1 {
						uses, ops = true, true
						edits = append(edits, edit{off(f.Pos()), off(f.End()), "verif_vs.Close"})
					}
				case *ast.SelectorExpr:
					if x, ok := n.X.(*ast.Ident); ok && x.Obj == nil {
						switch x.Name + "." + n.Sel.Name {
						case "time.After", "time.AfterFunc", "time.Tick", "time.NewTimer", "time.NewTicker", "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
							chans = fset.Position(n.Pos()).String() + ": " + x.Name + "." + n.Sel.Name
						}
					}
				case *ast.GoStmt:
					uses = true
					c := n.Call
					fn := "verif_vs.GoCall("
					if c.Ellipsis.IsValid() {
						fn = "verif_vs.GoCallSlice("
						edits = append(edits, edit{off(c.Ellipsis), off(c.Ellipsis) + 3, ""})
					}
					edits = append(edits, edit{off(n.Go), off(n.Go) + 2, fn})
					if len(c.Args) == 0 {
						edits = append(edits, edit{off(c.Lparen), off(c.Lparen) + 1, ""})
					} else {
						edits = append(edits, edit{off(c.Lparen), off(c.Lparen) + 1, ", "})
					}
				}
				return true
			}
			ast.Inspect(f, visit)
			tail := ""
			if pkg == filepath.Join(repo, "internal/match") && !hook {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && fd.Name.Name == "match" && len(fd.Recv.List) == 1 &&
						types(src, off, fd.Recv.List[0].Type) == "*LRE" && len(fd.Type.Params.List) == 1 && len(fd.Type.Params.List[0].Names) == 1 &&
						types(src, off, fd.Type.Params.List[0].Type) == "string" && fd.Type.Results != nil && len(fd.Type.Results.List) == 1 &&
						types(src, off, fd.Type.Results.List[0].Type) == "bool" {
						hook = true
						tail = "\n\nfunc VerifMatch(re *LRE, text string) bool { return re.match(text) }\n"
					}
				}
			}
			if len(edits) == 0 && tail == "" {
				continue
			}
			if uses {
				edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import verif_vs " + strconv.Quote(vsPath)})
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
			var b strings.Builder
			if ops {
				b.WriteString("//go:build go1.21\n\n") // generic functions
			}
			at := 0
			for _, e := range edits {
				if e.from < at {
					return "", "", false, 0, fmt.Errorf("%s: overlapping edits", name)
				}
				b.Write(src[at:e.from])
				b.WriteString(e.text)
				at = e.to
			}
			b.Write(src[at:])
			b.WriteString(tail)
			to := filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_"+filepath.Base(name))
			if err := os.WriteFile(to, []byte(b.String()), 0666); err != nil {
				return "", "", false, 0, err
			}
			repl[name] = to
		}
	}
	data, err := json.Marshal(map[string]interface{}{"Replace": repl})
	if err != nil {
		return "", "", false, 0, err
	}
	overlay = filepath.Join(out, "overlay.json")
	return overlay, chans, hook, npoints, os.WriteFile(overlay, data, 0666)
}

type noImport struct{}

func (noImport) Import(path string) (*gotypes.Package, error) { return nil, fmt.Errorf("not imported") }

// arrow returns the receive operation that e is, or nil.
func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func types(src []byte, off func(token.Pos) int, e ast.Expr) string {
	return string(src[off(e.Pos()):off(e.End())])
}

// shrink drops the entries of the big license table that are not to be kept.
func shrink(f *ast.File, off func(token.Pos) int, keep map[string]bool) []edit {
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CompositeLit)
		if !ok || len(c.Elts) < 50 {
			return true
		}
		for i, e := range c.Elts {
			el, ok := e.(*ast.CompositeLit)
			if !ok {
				return true
			}
			id := ""
			for _, kv := range el.Elts {
				kv, ok := kv.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				k, ok1 := kv.Key.(*ast.Ident)
				v, ok2 := kv.Value.(*ast.BasicLit)
				if ok1 && ok2 && k.Name == "ID" {
					id, _ = strconv.Unquote(v.Value)
				}
			}
			if id == "" || keep[id] {
				continue
			}
			end := off(c.Rbrace)
			if i+1 < len(c.Elts) {
				end = off(c.Elts[i+1].Pos())
			}
			edits = append(edits, edit{off(e.Pos()), end, ""})
		}
		return false
	})
	return edits
}
