package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	e, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(e))
	}
	return "/verif"
}

// Harness is one harness function with its directives.
type Harness struct {
	Name string
	Doc  string
	File string
	D    map[string][]string
}

func (h *Harness) get(k, def string) string {
	if v := h.D[k]; len(v) > 0 {
		return v[len(v)-1]
	}
	return def
}

func (h *Harness) num(k string, def int) int {
	n, err := strconv.Atoi(h.get(k, ""))
	if err != nil {
		return def
	}
	return n
}

func (h *Harness) props() []string { return strings.Fields(strings.Join(h.D["prop"], " ")) }

func harnesses() ([]*Harness, error) {
	dir := filepath.Join(root(), "harness", "h")
	fset := token.NewFileSet()
	pk, err := parser.ParseDir(fset, dir, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []*Harness
	for _, p := range pk {
		for fn, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				h := &Harness{Name: fd.Name.Name, File: filepath.Base(fn), D: map[string][]string{}}
				for _, c := range fd.Doc.List {
					t := c.Text
					if strings.HasPrefix(t, "//gosym:") {
						kv := strings.SplitN(strings.TrimPrefix(t, "//gosym:"), " ", 2)
						v := ""
						if len(kv) > 1 {
							v = strings.TrimSpace(kv[1])
						}
						h.D[kv[0]] = append(h.D[kv[0]], v)
					} else {
						h.Doc += strings.TrimSpace(strings.TrimPrefix(t, "//")) + " "
					}
				}
				if len(h.D["prop"]) > 0 {
					out = append(out, h)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, nil
}

func list() int {
	hs, err := harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range hs {
		fmt.Println(h.Name, h.props(), h.D)
	}
	return 0
}

// gen writes the native registry of harnesses.
func gen() int {
	hs, err := harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var b strings.Builder
	b.WriteString("// Code generated by gosym gen. DO NOT EDIT.\n\npackage main\n\nimport \"vharness/h\"\n\nvar all = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&b, "\t%q: h.%s,\n", h.Name, h.Name)
	}
	b.WriteString("}\n")
	p := filepath.Join(root(), "harness", "cmd", "replay", "all_gen.go")
	old, _ := os.ReadFile(p)
	if string(old) == b.String() {
		return 0
	}
	if err := os.WriteFile(p, []byte(b.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}
