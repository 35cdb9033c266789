package main

// Names. The contracts speak about functions, their parameters and local variables and the fields of unexported
// structs by name. When the current source only calls them differently, it is renamed back, in memory, to the names of
// contracts/baseline.json before it is verified: an alpha renaming, checked to bind every identifier to the same
// object as before.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type alphaVar struct {
	Name string `json:"n"`
	Type string `json:"t"`
	obj  types.Object
}

type alphaBase struct {
	Locals  map[string][]alphaVar `json:"locals"`
	Structs map[string][]alphaVar `json:"structs"`
	Funcs   map[string]string     `json:"funcs"`
	fobj    map[string]types.Object
}

func typeQ(p *types.Package) string { return p.Path() }

func declName(pkg string, d *ast.FuncDecl, o types.Object) string {
	if r := o.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + d.Name.Name
		}
	}
	return pkg + "." + d.Name.Name
}

func collectAlpha(pkgs []*packages.Package) *alphaBase {
	b := &alphaBase{Locals: map[string][]alphaVar{}, Structs: map[string][]alphaVar{}, Funcs: map[string]string{}, fobj: map[string]types.Object{}}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					o := p.TypesInfo.Defs[d.Name]
					if o == nil {
						continue
					}
					n := declName(p.Name, d, o)
					sig := o.Type().(*types.Signature)
					s := ""
					if sig.Recv() != nil {
						s = types.TypeString(sig.Recv().Type(), typeQ) + " "
					}
					for i := 0; i < sig.Params().Len(); i++ {
						s += types.TypeString(sig.Params().At(i).Type(), typeQ) + ","
					}
					s += "->"
					for i := 0; i < sig.Results().Len(); i++ {
						s += types.TypeString(sig.Results().At(i).Type(), typeQ) + ","
					}
					b.Funcs[n] = s
					b.fobj[n] = o
					var vs []alphaVar
					ast.Inspect(d, func(x ast.Node) bool {
						if id, ok := x.(*ast.Ident); ok && id.Name != "_" {
							if v, ok := p.TypesInfo.Defs[id].(*types.Var); ok && !v.IsField() {
								vs = append(vs, alphaVar{v.Name(), types.TypeString(v.Type(), typeQ), v})
							}
						}
						return true
					})
					b.Locals[n] = vs
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						ts, ok := sp.(*ast.TypeSpec)
						if !ok || ts.Name.IsExported() {
							continue
						}
						o := p.TypesInfo.Defs[ts.Name]
						if o == nil {
							continue
						}
						if st, ok := o.Type().Underlying().(*types.Struct); ok {
							var vs []alphaVar
							for i := 0; i < st.NumFields(); i++ {
								v := st.Field(i)
								vs = append(vs, alphaVar{v.Name(), types.TypeString(v.Type(), typeQ), v})
							}
							b.Structs[p.Name+"."+ts.Name.Name] = vs
						}
					}
				}
			}
		}
	}
	return b
}

// align pairs the variables of two lists: first the ones with the same name and type, in order; what is left between
// two pairs is paired if it has the same types in the same order.
func align(old, cur []alphaVar) map[int]int {
	n, m := len(old), len(cur)
	l := make([][]int, n+1)
	for i := range l {
		l[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if old[i].Name == cur[j].Name && old[i].Type == cur[j].Type {
				l[i][j] = l[i+1][j+1] + 1
			} else if l[i+1][j] >= l[i][j+1] {
				l[i][j] = l[i+1][j]
			} else {
				l[i][j] = l[i][j+1]
			}
		}
	}
	r := map[int]int{}
	i, j, gi, gj := 0, 0, 0, 0
	gap := func() {
		// pair what is left by type, in order, when each type occurs equally often
		to, tc := map[string][]int{}, map[string][]int{}
		for k := gi; k < i; k++ {
			to[old[k].Type] = append(to[old[k].Type], k)
		}
		for k := gj; k < j; k++ {
			tc[cur[k].Type] = append(tc[cur[k].Type], k)
		}
		for t, a := range to {
			if c := tc[t]; len(c) == len(a) {
				for k := range a {
					r[a[k]] = c[k]
				}
			}
		}
	}
	for i < n && j < m {
		switch {
		case old[i].Name == cur[j].Name && old[i].Type == cur[j].Type:
			gap()
			r[i] = j
			i++
			j++
			gi, gj = i, j
		case l[i+1][j] >= l[i][j+1]:
			i++
		default:
			j++
		}
	}
	i, j = n, m
	gap()
	return r
}

// binding numbers the objects of the identifiers of the packages in the order of their first occurrence.
func binding(pkgs []*packages.Package) []int {
	var out []int
	num := map[types.Object]int{}
	for _, p := range pkgs {
		fs := append([]*ast.File{}, p.Syntax...)
		sort.Slice(fs, func(i, j int) bool {
			return p.Fset.Position(fs[i].Pos()).Filename < p.Fset.Position(fs[j].Pos()).Filename
		})
		for _, f := range fs {
			ast.Inspect(f, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok {
					o := p.TypesInfo.Uses[id]
					if o == nil {
						o = p.TypesInfo.Defs[id]
					}
					if o == nil {
						out = append(out, 0)
						return true
					}
					if num[o] == 0 {
						num[o] = len(num) + 1
					}
					out = append(out, num[o])
				}
				return true
			})
		}
	}
	return out
}

// alphaOverlay returns the source files of the packages with the names of the baseline, and what was renamed.
func alphaOverlay(pkgs []*packages.Package, base *alphaBase) (map[string][]byte, []string) {
	cur := collectAlpha(pkgs)
	ren := map[types.Object]string{}
	var log []string
	// functions
	nameOf := map[string]string{} // current name -> baseline name
	for n := range cur.Funcs {
		nameOf[n] = n
	}
	for n, s := range base.Funcs {
		if _, ok := cur.Funcs[n]; ok {
			continue
		}
		pre := n[:strings.LastIndex(n, ".")+1]
		var cand []string
		for m, t := range cur.Funcs {
			if _, ok := base.Funcs[m]; !ok && t == s && strings.HasPrefix(m, pre) && !strings.Contains(m[len(pre):], ".") {
				cand = append(cand, m)
			}
		}
		k := 0
		for o, t := range base.Funcs {
			if _, ok := cur.Funcs[o]; !ok && t == s && strings.HasPrefix(o, pre) {
				k++
			}
		}
		if len(cand) == 1 && k == 1 {
			ren[cur.fobj[cand[0]]] = n[len(pre):]
			nameOf[cand[0]] = n
			log = append(log, cand[0]+" -> "+n)
		}
	}
	pair := func(where string, o, c []alphaVar) {
		for i, j := range align(o, c) {
			if o[i].Name != c[j].Name {
				ren[c[j].obj] = o[i].Name
				log = append(log, fmt.Sprintf("%s: %s -> %s", where, c[j].Name, o[i].Name))
			}
		}
	}
	for n, vs := range cur.Locals {
		if o, ok := base.Locals[nameOf[n]]; ok {
			pair(n, o, vs)
		}
	}
	for n, vs := range cur.Structs {
		if o, ok := base.Structs[n]; ok {
			pair(n, o, vs)
		}
	}
	if len(ren) == 0 {
		return nil, nil
	}
	type edit struct {
		off, n int
		s      string
	}
	edits := map[string]map[int]edit{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok {
					o := p.TypesInfo.Uses[id]
					if o == nil {
						o = p.TypesInfo.Defs[id]
					}
					if o != nil {
						if s, ok := ren[o]; ok {
							ps := p.Fset.Position(id.Pos())
							if edits[ps.Filename] == nil {
								edits[ps.Filename] = map[int]edit{}
							}
							edits[ps.Filename][ps.Offset] = edit{ps.Offset, len(id.Name), s}
						}
					}
				}
				return true
			})
		}
	}
	ov := map[string][]byte{}
	for f, es := range edits {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, nil
		}
		var l []edit
		for _, e := range es {
			l = append(l, e)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].off > l[j].off })
		for _, e := range l {
			src = append(append(append([]byte{}, src[:e.off]...), e.s...), src[e.off+e.n:]...)
		}
		ov[f] = src
	}
	sort.Strings(log)
	return ov, log
}

func sameBinding(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func readBaseline(dir string) *alphaBase {
	b := &alphaBase{}
	src, err := os.ReadFile(filepath.Join(dir, "baseline.json"))
	if err != nil || json.Unmarshal(src, b) != nil {
		return nil
	}
	return b
}
