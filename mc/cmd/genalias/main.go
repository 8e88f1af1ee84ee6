// genalias PKG NAME SKIP... writes forwarding declarations for every exported
// identifier of a standard package, except those the shim overrides itself.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
)

func main() {
	pkg, name := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(pkg)
	if err != nil {
		panic(err)
	}
	names := p.Scope().Names()
	sort.Strings(names)
	fmt.Printf("// Code generated by cmd/genalias %s; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", pkg, name, pkg)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Printf("const %s = real.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Printf("type %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Printf("var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Printf("var %s = real.%s\n", n, n)
		}
	}
}
