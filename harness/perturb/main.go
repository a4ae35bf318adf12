// perturb writes copies of the Go files of a package with a scheduling point around every statement that communicates
// (channel operations, locks, wait groups, start of goroutines). A scheduling point does nothing but wait, so the
// copy has exactly the behaviours of the original; it only reaches the rare ones more often.
//
// usage: perturb IMPORTPATH OUTDIR FIRSTSITE FILE...   prints "FILE COPY" for every file that got a point
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	at   int
	text string
	seq  int
}

var methods = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Done": true, "Wait": true, "Add": true,
	"Do": true, "Store": true, "Load": true, "CompareAndSwap": true, "Swap": true, "Go": true}

// talks tells whether an expression or simple statement communicates, function literals and blocks within it left aside
func talks(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				found = found || f.Name == "close" || f.Name == "len" && len(x.Args) == 1 && strings.Contains(strings.ToLower(fmt.Sprint(x.Args[0])), "chan")
			case *ast.SelectorExpr:
				found = found || methods[f.Sel.Name] || f.Sel.Name[0] >= 'a' && methods[strings.ToUpper(f.Sel.Name[:1])+f.Sel.Name[1:]]
			}
		}
		return !found
	})
	return found
}

func main() {
	imp, out := os.Args[1], os.Args[2]
	site, err := strconv.Atoi(os.Args[3])
	if err != nil {
		panic(err)
	}
	for _, file := range os.Args[4:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var ins []insertion
		put := func(at int, format string) {
			site++
			ins = append(ins, insertion{at, fmt.Sprintf(format, site), len(ins)})
		}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				in := s
				if l, ok := s.(*ast.LabeledStmt); ok {
					in = l.Stmt
				}
				switch in := in.(type) {
				case *ast.DeferStmt:
					if talks(in.Call) {
						put(off(s.Pos()), "defer zzvsched.P(%d); ")
						put(off(s.End()), "; defer zzvsched.P(%d)")
					}
				case *ast.ExprStmt, *ast.SendStmt, *ast.GoStmt, *ast.AssignStmt, *ast.IncDecStmt:
					if talks(in) {
						put(off(s.Pos()), "zzvsched.P(%d); ")
						put(off(s.End()), "; zzvsched.P(%d)")
					}
				case *ast.RangeStmt, *ast.SelectStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.ForStmt, *ast.ReturnStmt:
					_, always := in.(*ast.RangeStmt)
					if always || talks(in) {
						put(off(s.Pos()), "zzvsched.P(%d); ")
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
				put(off(n.Colon)+1, " zzvsched.P(%d); ")
			case *ast.RangeStmt:
				put(off(n.Body.Lbrace)+1, " zzvsched.P(%d); ")
			case *ast.GoStmt:
				if l, ok := n.Call.Fun.(*ast.FuncLit); ok {
					put(off(l.Body.Lbrace)+1, " zzvsched.P(%d); ")
				}
			case *ast.FuncDecl:
				if n.Body == nil {
					return true
				}
				for _, p := range n.Type.Params.List {
					_, isChan := p.Type.(*ast.ChanType)
					if star, ok := p.Type.(*ast.StarExpr); ok && !isChan {
						if sel, ok := star.X.(*ast.SelectorExpr); ok {
							isChan = sel.Sel.Name == "WaitGroup" || sel.Sel.Name == "Mutex" || sel.Sel.Name == "RWMutex"
						}
					}
					if isChan {
						put(off(n.Body.Lbrace)+1, " zzvsched.P(%d); ")
						break
					}
				}
			}
			return true
		})
		if len(ins) == 0 {
			continue
		}
		ins = append(ins, insertion{off(f.Name.End()), "; import zzvsched " + strconv.Quote(imp), -1})
		sort.SliceStable(ins, func(i, j int) bool {
			if ins[i].at != ins[j].at {
				return ins[i].at < ins[j].at
			}
			return ins[i].seq < ins[j].seq
		})
		var b strings.Builder
		last := 0
		for _, x := range ins {
			b.Write(src[last:x.at])
			b.WriteString(x.text)
			last = x.at
		}
		b.Write(src[last:])
		copyTo := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(file, "/"), "/", "_"))
		if err := os.WriteFile(copyTo, []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
		fmt.Println(file, copyTo)
	}
}
