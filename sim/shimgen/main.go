// shimgen prints a file which re-exports a package, except the given names.
//
//	shimgen PKGNAME IMPORTPATH skip,skip,...
package main

import (
	"bytes"
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"strings"
)

func main() {
	name, path := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Args[3], ",") {
		skip[s] = true
	}
	imp := importer.ForCompiler(token.NewFileSet(), "gc", func(p string) (io.ReadCloser, error) {
		out, err := exec.Command("go", "list", "-export", "-f", "{{.Export}}", p).Output()
		if err != nil {
			return nil, err
		}
		return os.Open(strings.TrimSpace(string(out)))
	})
	pkg, err := imp.Import(path)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by shimgen from %s; DO NOT EDIT.\n\npackage %s\n\nimport p %q\n\n", path, name, path)
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = p.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = p.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic: %s\n", n)
				continue
			}
			fmt.Fprintf(&b, "var %s = p.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic type: %s\n", n)
				continue
			}
			fmt.Fprintf(&b, "type %s = p.%s\n", n, n)
		}
	}
	os.Stdout.Write(b.Bytes())
}
