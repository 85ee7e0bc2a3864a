package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// alias.go finds the declarations the specification refers to when they have been renamed: a
// declaration that is gone and a new one of exactly the same shape in its place are the same.

// decls is what the package declared when the specification was written (anchors.json).
type decls struct {
	Types  map[string]typeDecl
	Funcs  map[string]string // by name relative to the package: the signature
	Consts map[string]string // type and value
}

type typeDecl struct {
	Fields []fieldDecl `json:",omitempty"`
	Other  string      `json:",omitempty"`
}

type fieldDecl struct{ Name, Type string }

//go:embed anchors.json
var anchorsJSON []byte

// renamed maps the fields of a type, by the names in the specification.
var renamed = struct {
	types  map[string]string            // old name to new
	fields map[string]map[string]string // new type name, old field name: new field name
	consts map[string]string
}{map[string]string{}, map[string]map[string]string{}, map[string]string{}}

func declsOf(t *Target) decls {
	d := decls{map[string]typeDecl{}, map[string]string{}, map[string]string{}}
	pkg := t.Pkg.Pkg
	q := types.RelativeTo(pkg)
	for _, n := range pkg.Scope().Names() {
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.TypeName:
			td := typeDecl{}
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					td.Fields = append(td.Fields, fieldDecl{s.Field(i).Name(), types.TypeString(s.Field(i).Type(), q)})
				}
			} else {
				td.Other = types.TypeString(o.Type().Underlying(), q)
			}
			d.Types[n] = td
		case *types.Const:
			if o.Val().Kind() == constant.Int {
				d.Consts[n] = types.TypeString(o.Type(), q) + " " + o.Val().ExactString()
			}
		}
	}
	for name, fn := range t.byName {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Object() != nil {
			d.Funcs[name] = sigOf(fn, q)
		}
	}
	return d
}

func sigOf(fn *ssa.Function, q types.Qualifier) string {
	var b []string
	s := fn.Signature
	for i := 0; i < s.Params().Len(); i++ {
		b = append(b, types.TypeString(s.Params().At(i).Type(), q))
	}
	b = append(b, "->")
	for i := 0; i < s.Results().Len(); i++ {
		b = append(b, types.TypeString(s.Results().At(i).Type(), q))
	}
	return strings.Join(b, " ")
}

var wordRE = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

// resolveRenames compares the package with anchors.json.
func resolveRenames(t *Target) {
	var old decls
	if json.Unmarshal(anchorsJSON, &old) != nil {
		return
	}
	now := declsOf(t)
	t.canon = map[*ssa.Function]string{}
	var lostT, newT []string
	for n := range old.Types {
		if _, ok := now.Types[n]; !ok {
			lostT = append(lostT, n)
		}
	}
	for n := range now.Types {
		if _, ok := old.Types[n]; !ok {
			newT = append(newT, n)
		}
	}
	sort.Strings(lostT)
	sort.Strings(newT)
	hide := map[string]bool{}
	for _, n := range append(append([]string{}, lostT...), newT...) {
		hide[n] = true
	}
	shape := func(d typeDecl) string {
		var b []string
		for _, f := range d.Fields {
			b = append(b, f.Type)
		}
		return wordRE.ReplaceAllStringFunc(d.Other+"|"+strings.Join(b, ";"), func(w string) string {
			if hide[w] {
				return "?"
			}
			return w
		})
	}
	back := map[string]string{} // new type name to old
	for _, o := range lostT {
		var m []string
		for _, n := range newT {
			if shape(old.Types[o]) == shape(now.Types[n]) && back[n] == "" {
				m = append(m, n)
			}
		}
		if len(m) == 1 {
			renamed.types[o], back[m[0]] = m[0], o
		}
	}
	oldName := func(s string) string {
		return wordRE.ReplaceAllStringFunc(s, func(w string) string {
			if b := back[w]; b != "" {
				return b
			}
			return w
		})
	}
	for o, od := range old.Types {
		n := o
		if r := renamed.types[o]; r != "" {
			n = r
		}
		nd, ok := now.Types[n]
		if !ok || len(od.Fields) == 0 {
			continue
		}
		has := map[string]int{}
		for i, f := range nd.Fields {
			has[f.Name] = i
		}
		was := map[string]bool{}
		for _, f := range od.Fields {
			was[f.Name] = true
		}
		for i, f := range od.Fields {
			if _, ok := has[f.Name]; ok {
				continue
			}
			var m []int
			for j, g := range nd.Fields {
				if !was[g.Name] && oldName(g.Type) == f.Type {
					m = append(m, j)
				}
			}
			pick := -1
			if len(m) == 1 {
				pick = m[0]
			} else if len(nd.Fields) == len(od.Fields) {
				for _, j := range m {
					if j == i {
						pick = j
					}
				}
			}
			if pick >= 0 {
				if renamed.fields[n] == nil {
					renamed.fields[n] = map[string]string{}
				}
				renamed.fields[n][f.Name] = nd.Fields[pick].Name
			}
		}
	}
	var lostF, newF []string
	for n := range old.Funcs {
		if _, ok := now.Funcs[n]; !ok {
			lostF = append(lostF, n)
		}
	}
	for n := range now.Funcs {
		if _, ok := old.Funcs[oldName(n)]; !ok || back[n] != "" {
			newF = append(newF, n)
		}
	}
	sort.Strings(lostF)
	sort.Strings(newF)
	recv := func(n string) string {
		if i := strings.LastIndex(n, "."); i >= 0 {
			return n[:i]
		}
		return ""
	}
	short := func(n string) string { return n[strings.LastIndex(n, ".")+1:] }
	for n := range now.Funcs { // methods of renamed types
		if o := oldName(recv(n)); o != recv(n) {
			if _, ok := old.Funcs[o+"."+short(n)]; ok {
				t.byName[o+"."+short(n)] = t.byName[n]
			}
		}
	}
	taken := map[string]bool{}
	for _, o := range lostF {
		if t.byName[o] != nil {
			continue
		}
		var m []string
		for _, n := range newF {
			if !taken[n] && oldName(recv(n)) == recv(o) && oldName(now.Funcs[n]) == old.Funcs[o] {
				m = append(m, n)
			}
		}
		var same []string // as many gone as new of this shape, one each
		for _, p := range lostF {
			if recv(p) == recv(o) && old.Funcs[p] == old.Funcs[o] {
				same = append(same, p)
			}
		}
		if len(m) == 1 && len(same) == 1 {
			t.byName[o] = t.byName[m[0]]
			t.canon[t.byName[m[0]]] = short(o)
			taken[m[0]] = true
		}
	}
	for o, v := range old.Consts {
		if _, ok := now.Consts[o]; ok {
			continue
		}
		var m []string
		for n, u := range now.Consts {
			if _, ok := old.Consts[n]; !ok && oldName(u) == v {
				m = append(m, n)
			}
		}
		if len(m) == 1 {
			renamed.consts[o] = m[0]
		}
	}
}

// specName is the name of a type in the specification.
func specName(n *types.Named) string {
	for o, r := range renamed.types {
		if r == n.Obj().Name() {
			return o
		}
	}
	return n.Obj().Name()
}

// nameOf is the name of a function in the specification.
func (t *Target) nameOf(fn *ssa.Function) string {
	if n, ok := t.canon[fn]; ok {
		return n
	}
	return fn.Name()
}

// lookup is a package-level object by its name in the specification.
func (t *Target) lookup(name string) types.Object {
	s := t.Pkg.Pkg.Scope()
	if o := s.Lookup(name); o != nil {
		return o
	}
	if n := renamed.types[name]; n != "" {
		return s.Lookup(n)
	}
	if n := renamed.consts[name]; n != "" {
		return s.Lookup(n)
	}
	return nil
}

func writeAnchors(t *Target) {
	b, _ := json.MarshalIndent(declsOf(t), "", " ")
	if err := os.WriteFile("anchors.json", append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
}
