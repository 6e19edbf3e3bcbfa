// genpass writes pass-through declarations for every exported symbol of a
// standard package that the hand-written part of the shim does not define.
package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	std, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return fi.Name() != "zpass.go" }, 0)
	if err != nil {
		panic(err)
	}
	have := map[string]bool{}
	name := ""
	for n, p := range pkgs {
		name = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "source", nil)
	pkg, err := imp.Import(std)
	if err != nil {
		panic(err)
	}
	names := pkg.Scope().Names()
	sort.Strings(names)
	base := pkg.Name()
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by tools/genpass; DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n", name, std)
	for _, n := range names {
		if !ast.IsExported(n) || have[n] {
			continue
		}
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// %s is generic: not passed through\n", n)
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", n, base, n)
		case *types.Const:
			_ = constant.Int
			fmt.Fprintf(&b, "const %s = %s.%s\n", n, base, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// %s is generic: not passed through\n", n)
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
		}
	}
	if err := os.WriteFile(dir+"/zpass.go", []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
}
