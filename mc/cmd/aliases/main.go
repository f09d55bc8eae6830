// Command aliases writes a file of aliases for the exported identifiers of a package, leaving out those listed.
// Usage: aliases IMPORTPATH PKGNAME name,name,... > aliases.go
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	path, name := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, n := range strings.Split(os.Args[3], ",") {
		skip[n] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var ts, cs, vars []string
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			ts = append(ts, n)
		case *types.Const:
			cs = append(cs, n)
		case *types.Var:
			vars = append(vars, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() == 0 {
				vars = append(vars, n)
			}
		}
	}
	sort.Strings(ts)
	fmt.Printf("// Code generated by cmd/aliases; DO NOT EDIT.\n\npackage %s\n\nimport nat %q\n\n", name, path)
	emit := func(kw string, ns []string) {
		if len(ns) == 0 {
			return
		}
		fmt.Printf("%s (\n", kw)
		for _, n := range ns {
			fmt.Printf("\t%s = nat.%s\n", n, n)
		}
		fmt.Printf(")\n\n")
	}
	emit("type", ts)
	emit("const", cs)
	emit("var", vars)
}
