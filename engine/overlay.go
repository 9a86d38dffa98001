package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/mozilla/crlite/go"

// facades lists the packages replaced by models, with the default import name.
var facades = map[string]string{}

func loadFacades(dir string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name(), "FACADE"))
		if err != nil {
			continue // support package
		}
		f := strings.Fields(string(b)) // <real path> <name>
		facades[f[0]] = f[1] + " " + e.Name()
	}
	return nil
}

// rewriteImports redirects imports of modelled packages, keeping line numbers.
func rewriteImports(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	type edit struct {
		off, end int
		s        string
	}
	var eds []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		fc, ok := facades[p]
		if !ok {
			continue
		}
		parts := strings.Fields(fc)
		s := strconv.Quote(facadeRoot + "/" + parts[1])
		if im.Name == nil {
			s = parts[0] + " " + s
		}
		off := fset.Position(im.Path.Pos()).Offset
		eds = append(eds, edit{off, off + len(im.Path.Value), s})
	}
	for i := len(eds) - 1; i >= 0; i-- {
		e := eds[i]
		src = append(append(append([]byte{}, src[:e.off]...), e.s...), src[e.end:]...)
	}
	return src, nil
}

type harnessFile struct {
	src  string // path under /verif
	pkg  string // directory below /repo/go
	text []byte
	ents []string
	opts map[string]string
	name string // package clause
}

type harness struct {
	prop  string
	files []*harnessFile
	opts  map[string]string
}

func readHarnessFile(verif, path string) (*harnessFile, []string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	h := &harnessFile{src: path, text: b, opts: map[string]string{}}
	var uses []string
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "//vf:pkg "):
			h.pkg = strings.TrimSpace(l[9:])
		case strings.HasPrefix(l, "//vf:use "):
			uses = append(uses, strings.Fields(l[9:])...)
		case strings.HasPrefix(l, "//vf:opt "):
			for _, kv := range strings.Fields(l[9:]) {
				p := strings.SplitN(kv, "=", 2)
				if len(p) == 2 {
					h.opts[p[0]] = p[1]
				}
			}
		}
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, b, 0)
	if err != nil {
		return nil, nil, err
	}
	h.name = f.Name.Name
	for n := range f.Scope.Objects {
		if strings.HasPrefix(n, "VF_") {
			h.ents = append(h.ents, n)
		}
	}
	sort.Strings(h.ents)
	if h.pkg == "" {
		return nil, nil, fmt.Errorf("%s: no //vf:pkg line", path)
	}
	return h, uses, nil
}

func loadHarness(verif, prop string) (*harness, error) {
	h := &harness{prop: prop, opts: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", prop, "*.go"))
	if len(fs) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	seen := map[string]bool{}
	var add func(p string) error
	add = func(p string) error {
		if seen[p] {
			return nil
		}
		seen[p] = true
		hf, uses, err := readHarnessFile(verif, p)
		if err != nil {
			return err
		}
		var own []string
		for _, n := range hf.ents {
			if strings.HasPrefix(n, "VF_"+prop+"_") {
				own = append(own, n)
			}
		}
		hf.ents = own // not those of a used file of another check
		h.files = append(h.files, hf)
		for k, v := range hf.opts {
			h.opts[k] = v
		}
		for _, u := range uses {
			if err := add(filepath.Join(verif, "harness", "common", u)); err != nil {
				return err
			}
		}
		return nil
	}
	for _, p := range fs {
		if err := add(p); err != nil {
			return nil, err
		}
	}
	return h, nil
}

func (h *harness) pkgs() []string {
	m := map[string]bool{}
	for _, f := range h.files {
		m[f.pkg] = true
	}
	return sortedKeys(m)
}

// rewriteConst gives a package-level constant a smaller value (a bound; nothing happens when it is not there).
func rewriteConst(src []byte, name, val string) ([]byte, error) {
	if !strings.Contains(string(src), name) {
		return src, nil
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.CONST && g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range v.Names {
				if n.Name == name && i < len(v.Values) {
					if lit, ok := v.Values[i].(*ast.BasicLit); ok {
						a, b := fs.Position(lit.Pos()).Offset, fs.Position(lit.End()).Offset
						return []byte(string(src[:a]) + val + string(src[b:])), nil
					}
				}
			}
		}
	}
	return src, nil
}

// buildOverlay computes the file replacements: path -> content (nil content: file removed).
func buildOverlay(repo, verif string, h *harness) (map[string][]byte, error) {
	ov := map[string][]byte{}
	root := filepath.Join(repo, "go")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		if strings.HasSuffix(p, "_test.go") {
			ov[p] = nil
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		nb, err := rewriteImports(p, b)
		if err != nil {
			return err
		}
		for k, v := range h.opts {
			if c, ok := strings.CutPrefix(k, "const:"); ok {
				if nb, err = rewriteConst(nb, c, v); err != nil {
					return err
				}
			}
		}
		if string(nb) != string(b) {
			ov[p] = nb
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	fdir := filepath.Join(verif, "facade")
	err = filepath.Walk(fdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(fdir, p)
		ov[filepath.Join(root, "zzvf", rel)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	for i, f := range h.files {
		nb, err := rewriteImports(f.src, f.text)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(root, f.pkg, fmt.Sprintf("zz_vf_%d_%s", i, filepath.Base(f.src)))] = nb
	}
	return ov, nil
}

// nativeOverlay writes the overlay to disk for the go command, with the replay driver for package pkg.
func nativeOverlay(dir, repo string, h *harness, ov map[string][]byte, pkg string) (string, error) {
	repl := map[string]string{}
	i := 0
	put := func(p string, b []byte) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		i++
		repl[p] = f
		return os.WriteFile(f, b, 0644)
	}
	for _, p := range sortedKeys(ov) {
		if ov[p] == nil {
			repl[p] = ""
			continue
		}
		if err := put(p, ov[p]); err != nil {
			return "", err
		}
	}
	var sb strings.Builder
	name := ""
	var ents []string
	for _, f := range h.files {
		if f.pkg == pkg {
			name = f.name
			ents = append(ents, f.ents...)
		}
	}
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tvf %q\n)\n\nfunc TestZZVF(t *testing.T) {\n\tvf.RunNative(map[string]func(){\n", name, vfPath)
	for _, e := range ents {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", e, e)
	}
	sb.WriteString("\t})\n}\n")
	if err := put(filepath.Join(repo, "go", pkg, "zz_vf_test.go"), []byte(sb.String())); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	o := filepath.Join(dir, "overlay.json")
	return o, os.WriteFile(o, j, 0644)
}
