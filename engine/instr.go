package main

// Instrumentation of the root package for schedules: a delay point before the
// statements that touch shared state, goroutines started through nd.Spawn (so
// they have the same names in the engine and natively), and lock types whose
// waiters testing/synctest sees as blocked. Lines are preserved. The engine
// and the native replay use the same instrumented text, generated from the
// current tree on every run.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var noPoints = map[string]bool{"message.go": true, "event.go": true, "reflect.go": true, "debug.go": true, "doc.go": true, "conn_handler.go": true, "stackexchange.go": true}

var pureBuiltins = map[string]bool{"len": true, "cap": true, "make": true, "new": true, "append": true, "copy": true, "string": true, "byte": true, "int": true, "uint64": true, "panic": true}

type edit struct {
	off int
	del int
	ins string
	pri int
}

// instrumentDir writes instrumented copies of dir's non-test Go files to out
// and returns the overlay entries.
func instrumentDir(dir, out string) (map[string]string, int, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, 0, err
	}
	res := map[string]string{}
	total := 0
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, 0, err
		}
		txt, n, err := instrumentFile(filepath.Base(f), src)
		if err != nil {
			return nil, 0, fmt.Errorf("%s: %v", f, err)
		}
		if txt == nil {
			continue
		}
		total += n
		dst := filepath.Join(out, "instr_"+filepath.Base(f))
		if err := os.WriteFile(dst, txt, 0o644); err != nil {
			return nil, 0, err
		}
		res[f] = dst
	}
	return res, total, nil
}

func instrumentFile(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	syncName := ""
	for _, im := range file.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	var edits []edit
	points := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	pts := !noPoints[name]
	used := false

	addPoint := func(s ast.Stmt) {
		if !pts || !interesting(s) {
			return
		}
		points++
		used = true
		edits = append(edits, edit{off: off(s.Pos()), ins: "verifnd.Point(); ", pri: 1})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if ls, ok := s.(*ast.LabeledStmt); ok {
				if interesting(ls.Stmt) && pts {
					points++
					used = true
					edits = append(edits, edit{off: off(s.Pos()), ins: "verifnd.Point(); ", pri: 1})
				}
				continue
			}
			addPoint(s)
		}
	}
	inFunc := 0
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && id.Obj == nil && (x.Sel.Name == "Mutex" || x.Sel.Name == "RWMutex") {
				edits = append(edits, edit{off: off(id.Pos()), del: len(id.Name), ins: "verifnd"})
				used = true
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.GoStmt:
			used = true
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				edits = append(edits, edit{off: off(x.Pos()), del: off(fl.Pos()) - off(x.Pos()), ins: "verifnd.Spawn("})
				edits = append(edits, edit{off: off(fl.End()), del: off(x.End()) - off(fl.End()), ins: ")"})
			} else {
				// { f, a := fun, args; Spawn(func() { f(a...) }) }
				var lhs, rhs []string
				text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
				var args []string
				pre := ""
				fun := text(x.Call.Fun)
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
					// a literal with arguments: keep it in place
					for i, a := range x.Call.Args {
						lhs = append(lhs, fmt.Sprintf("verifA%d", i))
						rhs = append(rhs, text(a))
						args = append(args, fmt.Sprintf("verifA%d", i))
					}
					edits = append(edits, edit{off: off(x.Pos()), del: off(fl.Pos()) - off(x.Pos()), ins: "{ " + strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; verifnd.Spawn(func() { "})
					edits = append(edits, edit{off: off(fl.End()), del: off(x.End()) - off(fl.End()), ins: "(" + strings.Join(args, ", ") + ") }) }"})
				} else {
					lhs = append(lhs, "verifF")
					rhs = append(rhs, fun)
					for i, a := range x.Call.Args {
						lhs = append(lhs, fmt.Sprintf("verifA%d", i))
						rhs = append(rhs, text(a))
						args = append(args, fmt.Sprintf("verifA%d", i))
					}
					ell := ""
					if x.Call.Ellipsis.IsValid() {
						ell = "..."
					}
					pre = "{ " + strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; verifnd.Spawn(func() { verifF(" + strings.Join(args, ", ") + ell + ") }) }"
					edits = append(edits, edit{off: off(x.Pos()), del: off(x.End()) - off(x.Pos()), ins: pre})
					return false
				}
			}
		}
		return true
	}
	_ = inFunc
	ast.Inspect(file, walk)
	if !used {
		return nil, 0, nil
	}
	// imports go on the package clause's line
	imp := `; import verifnd "` + ndPath + `"; var _ = verifnd.Point`
	imp = `; import verifnd "` + ndPath + `"`
	edits = append(edits, edit{off: off(file.Name.End()), ins: imp})
	tail := "\nvar _ = verifnd.Point\n"
	if syncName != "" && syncName != "_" {
		tail += "var _ " + syncName + ".Locker\n"
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].pri > edits[j].pri
	})
	var sb strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return nil, 0, fmt.Errorf("overlapping edits at %d", e.off)
		}
		sb.Write(src[pos:e.off])
		sb.WriteString(e.ins)
		pos = e.off + e.del
	}
	sb.Write(src[pos:])
	sb.WriteString(tail)
	return []byte(sb.String()), points, nil
}

// interesting reports whether the statement itself (not its nested blocks)
// has an effect another goroutine could see or depend on.
func interesting(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
		return true
	case *ast.DeferStmt, *ast.DeclStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.LabeledStmt:
		if d, ok := s.(*ast.DeclStmt); ok {
			return hasVisible(d)
		}
		return false
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Unlock" || se.Sel.Name == "RUnlock") {
				return false
			}
		}
		return hasVisible(x)
	case *ast.IfStmt:
		return x.Init != nil && interesting(x.Init) || hasVisible(x.Cond)
	case *ast.ForStmt:
		return x.Cond != nil && hasVisible(x.Cond)
	case *ast.RangeStmt:
		return hasVisible(x.X)
	case *ast.SwitchStmt:
		return x.Init != nil && interesting(x.Init) || x.Tag != nil && hasVisible(x.Tag)
	case *ast.TypeSwitchStmt:
		return false
	case *ast.AssignStmt, *ast.IncDecStmt, *ast.ReturnStmt:
		return hasVisible(x)
	}
	return false
}

func hasVisible(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && pureBuiltins[id.Name] {
				return true
			}
			if _, ok := x.Fun.(*ast.ArrayType); ok {
				return true
			}
			found = true
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			found = true
			return false
		case *ast.IndexExpr:
			found = true
			return false
		}
		return true
	})
	return found
}
