// instr OUTDIR PREFIX writes copies of the sources of /repo/src/collection and /repo/src/util with a
// scheduling point in front of every statement, and OUTDIR/overlay.json that puts them in place of the
// sources in a build.  String literals that start with /etc get PREFIX in front.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("vfPoint")}}
}

func weave(list []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range list {
		r = append(r, point(), s)
	}
	return r
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	out, prefix := os.Args[1], os.Args[2]
	die(os.MkdirAll(out, 0755))
	rep := map[string]string{}
	points := 0
	for _, pkg := range []string{"collection", "util"} {
		dir := "/repo/src/" + pkg
		files, err := filepath.Glob(dir + "/*.go")
		die(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			die(err)
			fset := token.NewFileSet()
			t, err := parser.ParseFile(fset, f, src, 0) // without comments
			die(err)
			plain := strings.Contains(string(src), "//go:") || strings.Contains(string(src), "// +build")
			ast.Inspect(t, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BasicLit:
					if x.Kind == token.STRING && (strings.HasPrefix(x.Value[1:], "/etc/") || x.Value[1:len(x.Value)-1] == "/etc") {
						x.Value = x.Value[:1] + prefix + x.Value[1:]
					}
				case *ast.BlockStmt:
					if !plain {
						points += len(x.List)
						x.List = weave(x.List)
					}
				case *ast.CaseClause:
					if !plain {
						points += len(x.Body)
						x.Body = weave(x.Body)
					}
				case *ast.CommClause:
					if !plain {
						points += len(x.Body)
						x.Body = weave(x.Body)
					}
				}
				return true
			})
			// the bodies of switch and select statements hold clauses only: take the points out again
			ast.Inspect(t, func(n ast.Node) bool {
				clean := func(b *ast.BlockStmt) {
					if b == nil {
						return
					}
					var r []ast.Stmt
					for _, s := range b.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							r = append(r, s)
						}
					}
					b.List = r
				}
				switch x := n.(type) {
				case *ast.SwitchStmt:
					clean(x.Body)
				case *ast.TypeSwitchStmt:
					clean(x.Body)
				case *ast.SelectStmt:
					clean(x.Body)
				}
				return true
			})
			g := filepath.Join(out, pkg+"_"+filepath.Base(f))
			var b strings.Builder
			die(printer.Fprint(&b, fset, t))
			if plain {
				b.Reset()
				b.Write(src)
			}
			die(os.WriteFile(g, []byte(b.String()), 0644))
			rep[f] = g
		}
		h := filepath.Join(out, pkg+"_vf_hook.go")
		die(os.WriteFile(h, []byte("package "+pkg+"\n\n// VFHook is called in front of every statement\nvar VFHook func()\n\nfunc vfPoint() {\n\tif VFHook != nil {\n\t\tVFHook()\n\t}\n}\n"), 0644))
		rep[dir+"/vf_hook.go"] = h
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": rep})
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
	fmt.Println(points, "scheduling points")
}
