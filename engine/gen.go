package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

// genFacades writes re.go into every facade directory: the real package's API, except what the directory
// declares itself.
func genFacades(verif, repo string) error {
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	for real, fc := range facades {
		dir := filepath.Join(verif, "facade", strings.Fields(fc)[1])
		name := strings.Fields(fc)[0]
		own := map[string]bool{}
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if filepath.Base(f) == "re.go" {
				continue
			}
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				return err
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		ff, _ := os.ReadFile(filepath.Join(dir, "FACADE"))
		for _, l := range strings.Split(string(ff), "\n")[1:] {
			if strings.HasPrefix(l, "omit ") {
				for _, n := range strings.Fields(l[5:]) {
					own[n] = true
				}
			}
		}
		if own["__none"] || strings.Contains(string(ff), "\nstandalone") {
			continue
		}
		ps, err := packages.Load(&packages.Config{Mode: packages.NeedTypes | packages.NeedName | packages.NeedImports | packages.NeedDeps, Dir: repo + "/go", Env: goEnv()}, real)
		if err != nil || len(ps) != 1 || ps[0].Types == nil {
			return fmt.Errorf("%s: %v", real, err)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "// Code generated by vfcheck -gen. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, real)
		sc := ps[0].Types.Scope()
		for _, n := range sc.Names() {
			if !ast.IsExported(n) || own[n] {
				continue
			}
			switch o := sc.Lookup(n).(type) {
			case *types.Const:
				fmt.Fprintf(&sb, "const %s = real.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&sb, "var %s = real.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&sb, "var %s = real.%s\n", n, n)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&sb, "type %s = real.%s\n", n, n)
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "re.go"), []byte(sb.String()), 0644); err != nil {
			return err
		}
	}
	return nil
}
