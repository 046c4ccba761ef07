// names prints the package-level variables and functions of one Go file, and its
// source with constants made variables and, at the end, a function which computes
// anew the variables whose values come from other ones.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var vars, funcs []string
	global := map[string]bool{}
	var specs []*ast.ValueSpec
	text := append([]byte(nil), src...)
	var cut [][2]int // "const" to be replaced
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.CONST {
				plain := len(os.Args) < 3
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					plain = plain && len(v.Values) == len(v.Names)
					ast.Inspect(v, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok && id.Name == "iota" {
							plain = false
						}
						return true
					})
				}
				if !plain {
					continue
				}
				cut = append(cut, [2]int{off(d.Pos()), off(d.Pos()) + len("const")})
			} else if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				specs = append(specs, v)
				for _, n := range v.Names {
					if n.Name != "_" {
						vars = append(vars, n.Name)
						global[n.Name] = true
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name != "main" && d.Name.Name != "init" && d.Name.Name != "_" && d.Type.TypeParams == nil {
				funcs = append(funcs, d.Name.Name)
			}
		}
	}
	var b strings.Builder
	b.WriteString("\n\nfunc vReinit(given map[string]bool) {\n")
	for _, v := range specs {
		if len(v.Values) != len(v.Names) {
			continue
		}
		for i, n := range v.Names {
			uses := false
			ast.Inspect(v.Values[i], func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && global[id.Name] {
					uses = true
				}
				return true
			})
			if uses && n.Name != "_" {
				fmt.Fprintf(&b, "\tif !given[%q] {\n\t\t%s = %s\n\t}\n", n.Name, n.Name, src[off(v.Values[i].Pos()):off(v.Values[i].End())])
			}
		}
	}
	b.WriteString("}\n")
	for i := len(cut) - 1; i >= 0; i-- {
		text = append(text[:cut[i][0]:cut[i][0]], append([]byte("var"), text[cut[i][1]:]...)...)
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"vars": vars, "funcs": funcs, "src": string(text) + b.String()})
}
