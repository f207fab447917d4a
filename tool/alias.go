package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// shimmed lists the standard packages that have a simulated counterpart.
var shimmed = []string{"sync", "sync/atomic", "time", "runtime", "os", "io/ioutil", "log", "fmt", "math/rand", "runtime/pprof", "runtime/trace", "context"}

// never lists names that must not reach the real package.
var never = map[string]string{
	"os": "StartProcess OpenRoot OpenInRoot Root FindProcess Process ProcAttr ProcessState",
}

// genAliases writes, for each shim, an alias for every exported name it does not define.
func genAliases(shimDir string) error {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for _, path := range shimmed {
		dir := filepath.Join(shimDir, path)
		have := map[string]bool{}
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if e.IsDir() || e.Name() == "alias.go" {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				return err
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		for _, n := range strings.Fields(never[path]) {
			have[n] = true
		}
		pkg, err := imp.Import(path)
		if err != nil {
			return err
		}
		names := pkg.Scope().Names()
		sort.Strings(names)
		var consts, vars, typs []string
		for _, n := range names {
			o := pkg.Scope().Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				consts = append(consts, fmt.Sprintf("const %s = real.%s", n, n))
			case *types.Var:
				vars = append(vars, fmt.Sprintf("var %s = real.%s", n, n))
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				vars = append(vars, fmt.Sprintf("var %s = real.%s", n, n))
			case *types.TypeName:
				if t, ok := o.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
					continue
				}
				typs = append(typs, fmt.Sprintf("type %s = real.%s", n, n))
			}
		}
		out := filepath.Join(dir, "alias.go")
		if len(consts)+len(vars)+len(typs) == 0 {
			os.Remove(out)
			continue
		}
		src := "// Code generated by vtool alias. DO NOT EDIT.\n\npackage " + pkg.Name() + "\n\nimport real \"" + path + "\"\n\n" +
			strings.Join(consts, "\n") + "\n\n" + strings.Join(typs, "\n") + "\n\n" + strings.Join(vars, "\n") + "\n"
		if err := os.WriteFile(out, []byte(src), 0644); err != nil {
			return err
		}
	}
	return nil
}
