// list prints the top-level declarations of Go package directories as JSON.
package main

import (
	"encoding/json"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type decl struct {
	Kind, Name, Recv, Target string
	Ptr, Generic, Body       bool
}

func main() {
	out := map[string]map[string]any{}
	for _, dir := range os.Args[1:] {
		p, err := build.ImportDir(dir, 0)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		var ds []decl
		for _, f := range p.GoFiles {
			t, err := parser.ParseFile(fs, filepath.Join(dir, f), nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			links := map[string]string{}
			for _, g := range t.Comments {
				for _, c := range g.List {
					if w := strings.Fields(c.Text); len(w) >= 3 && w[0] == "//go:linkname" {
						links[w[1]] = w[2]
					}
				}
			}
			for _, d := range t.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					x := decl{Kind: "func", Name: d.Name.Name, Body: d.Body != nil, Generic: d.Type.TypeParams != nil, Target: links[d.Name.Name]}
					if d.Recv != nil && len(d.Recv.List) == 1 {
						r := d.Recv.List[0].Type
						if s, ok := r.(*ast.StarExpr); ok {
							r, x.Ptr = s.X, true
						}
						switch s := r.(type) {
						case *ast.IndexExpr:
							r, x.Generic = s.X, true
						case *ast.IndexListExpr:
							r, x.Generic = s.X, true
						}
						if i, ok := r.(*ast.Ident); ok {
							x.Recv = i.Name
						}
					}
					ds = append(ds, x)
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							ds = append(ds, decl{Kind: "type", Name: s.Name.Name, Generic: s.TypeParams != nil})
						case *ast.ValueSpec:
							for _, n := range s.Names {
								ds = append(ds, decl{Kind: d.Tok.String(), Name: n.Name, Target: links[n.Name]})
							}
						}
					}
				}
			}
		}
		out[dir] = map[string]any{"package": p.Name, "decls": ds}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
