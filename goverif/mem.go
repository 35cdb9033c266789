package main

// Symbolic values, sorts and the memory model.
//
// Every Go value is a tuple of SMT leaves. Struct fields of basic, slice, map
// and interface type live in one SMT array per (struct type, field, leaf),
// indexed by the reference of the struct (Burstall); a field of struct type is
// a sub-reference (fld r tag). Elements of a slice are (elem arr (ix off i)).

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Leaf struct {
	path string
	sort string
	kind string // "ref" "arr" "map" "len" "cap" "off" "int" "" - for validity assumptions
	typ  types.Type
}

type Val struct {
	T   types.Type
	L   []string
	Tup []*Val
	Clo *Closure
	LV  *LVal  // pointer to a non-struct field
	St  *State // state in which memory behind this value is read (specifications only)
	S   string // sort of a value that is not a Go value (specifications only)
	Ref string // reference of a struct that is read lazily (specifications only)
}

type Closure struct {
	fn   *ssa.Function
	bind []*Val
}

type LVal struct {
	base string // reference of the struct
	strT types.Type
	fld  int
}

type State struct {
	maps map[string]string
	cnt  string
	rec  map[string]bool // records the maps that are read
	pre  string          // name prefix of the maps of a lemma state
}

func (s *State) clone() *State {
	m := make(map[string]string, len(s.maps))
	for k, v := range s.maps {
		m[k] = v
	}
	return &State{maps: m, cnt: s.cnt, rec: s.rec, pre: s.pre}
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sym makes an SMT symbol.
func sym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$%@#~", c)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
}

// opaque reports struct types whose fields are not looked at (types of other modules).
func (e *Eng) opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	if !st {
		return false
	}
	p := n.Obj().Pkg().Path()
	return !strings.HasPrefix(p, e.module)
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

func (e *Eng) leaves(t types.Type) []Leaf {
	if l, ok := e.leafCache[t]; ok {
		return l
	}
	l := e.leaves1(t)
	e.leafCache[t] = l
	return l
}

func (e *Eng) leaves1(t types.Type) []Leaf {
	if isBuilder(t) {
		return []Leaf{{"", "Str", "", t}} // the text written so far
	}
	if e.opaque(t) {
		s := "O_" + strings.NewReplacer(".", "_", "/", "_").Replace(typeName(t))
		e.needSort(s)
		return []Leaf{{"", s, "", t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", "Bool", "", t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", "Int", "int", t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", "Str", "", t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []Leaf{{"", "Flt", "", t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", "Ref", "ref", t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", "Ref", "ref", t}}
		}
	case *types.Pointer:
		return []Leaf{{"", "Ref", "ref", t}}
	case *types.Slice:
		return []Leaf{{"arr", "Int", "arr", t}, {"off", "Int", "off", t}, {"len", "Int", "len", t}, {"cap", "Int", "cap", t}}
	case *types.Map:
		return []Leaf{{"", "Int", "map", t}}
	case *types.Chan, *types.Signature:
		return []Leaf{{"", "Int", "", t}}
	case *types.Interface:
		return []Leaf{{"", "Any", "", t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range e.leaves(u.Field(i).Type()) {
				p := u.Field(i).Name()
				if l.path != "" {
					p += "." + l.path
				}
				out = append(out, Leaf{p, l.sort, l.kind, l.typ})
			}
		}
		return out
	case *types.Array:
		e.needSort("ArrVal")
		return []Leaf{{"", "ArrVal", "", t}}
	case *types.Tuple:
		return nil
	}
	panic(unsupported("type " + t.String()))
}

func (e *Eng) isStruct(t types.Type) bool {
	if e.opaque(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// fieldRange is the range of leaves of field i inside a struct value.
func (e *Eng) fieldRange(t types.Type, i int) (int, int) {
	u := t.Underlying().(*types.Struct)
	a := 0
	for k := 0; k < i; k++ {
		a += len(e.leaves(u.Field(k).Type()))
	}
	return a, a + len(e.leaves(u.Field(i).Type()))
}

func (e *Eng) tag(t types.Type, fld int) int {
	k := typeName(t) + "." + strconv.Itoa(fld)
	if n, ok := e.tags[k]; ok {
		return n
	}
	n := len(e.tags) + 1
	e.tags[k] = n
	return n
}

// memory map names
func (e *Eng) fieldMap(st types.Type, f int, leaf Leaf) string {
	u := st.Underlying().(*types.Struct)
	n := "F." + typeName(st) + "." + u.Field(f).Name()
	if leaf.path != "" {
		n += "." + leaf.path
	}
	e.mapSort[n] = "(Array Ref " + leaf.sort + ")"
	return n
}

// ghostMap: the memory map of a ghost field of a struct, and its type.
func (e *Eng) ghostMap(st types.Type, name string) (string, types.Type) {
	tn := typeName(st)
	k, ok := e.db.GhostF[tn[strings.LastIndex(tn, ".")+1:]][name]
	if !ok {
		return "", nil
	}
	n := "F." + tn + ".$" + name
	if k == "bool" {
		e.mapSort[n] = "(Array Ref Bool)"
		return n, types.Typ[types.Bool]
	}
	if k == "IntArray" {
		e.mapSort[n] = "(Array Ref (Array Int Int))"
		return n, nil
	}
	e.mapSort[n] = "(Array Ref Int)"
	return n, types.Typ[types.Int]
}

func (e *Eng) cellMap(t types.Type, leaf Leaf) string {
	n := "C." + typeName(t)
	if leaf.path != "" {
		n += "." + leaf.path
	}
	e.mapSort[n] = "(Array Ref " + leaf.sort + ")"
	return n
}

func (e *Eng) keySort(m *types.Map) string {
	l := e.leaves(m.Key())
	if len(l) != 1 {
		panic(unsupported("map key type " + m.Key().String()))
	}
	return l[0].sort
}

func (e *Eng) domMap(t types.Type) string {
	m := t.Underlying().(*types.Map)
	n := "D." + typeName(t.Underlying())
	e.mapSort[n] = "(Array Int (Array " + e.keySort(m) + " Bool))"
	return n
}

func (e *Eng) valMap(t types.Type, leaf Leaf) string {
	m := t.Underlying().(*types.Map)
	n := "V." + typeName(t.Underlying())
	if leaf.path != "" {
		n += "." + leaf.path
	}
	e.mapSort[n] = "(Array Int (Array " + e.keySort(m) + " " + leaf.sort + "))"
	return n
}

// mapsOf lists the memory maps that hold a value of type t behind a reference.
func (e *Eng) mapsOf(t types.Type) []string {
	var out []string
	if e.isStruct(t) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if e.isStruct(ft) {
				out = append(out, e.mapsOf(ft)...)
				continue
			}
			for _, l := range e.leaves(ft) {
				out = append(out, e.fieldMap(t, i, l))
			}
		}
		return out
	}
	for _, l := range e.leaves(t) {
		out = append(out, e.cellMap(t, l))
	}
	return out
}

// get is the current term of a memory map.
func (x *Exec) get(st *State, m string) string {
	if st.rec != nil {
		st.rec[m] = true
	}
	if t, ok := st.maps[m]; ok {
		return t
	}
	if st.pre != "" {
		n := sym(st.pre + m)
		st.maps[m] = n
		if !x.declared[n] && !x.termMode {
			x.declared[n] = true
			x.emitFront(fmt.Sprintf("(declare-const %s %s)", n, x.e.mapSort[m]))
		}
		return n
	}
	n := sym("M0." + m)
	if !x.declared[n] {
		x.declared[n] = true
		x.emitFront(fmt.Sprintf("(declare-const %s %s)", n, x.e.mapSort[m]))
	}
	return n
}

func sel(a, i string) string { return "(select " + a + " " + i + ")" }

// eachCell calls f(map name, reference, leaf index) for every leaf of a t stored at ref.
func (e *Eng) eachCell(t types.Type, ref string, f func(m, ref string, leaf int, l Leaf)) {
	n := 0
	var rec func(t types.Type, ref string)
	rec = func(t types.Type, ref string) {
		if e.isStruct(t) {
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if e.isStruct(ft) {
					rec(ft, fmt.Sprintf("(fld %s %d)", ref, e.tag(t, i)))
					continue
				}
				for _, l := range e.leaves(ft) {
					f(e.fieldMap(t, i, l), ref, n, l)
					n++
				}
			}
			return
		}
		for _, l := range e.leaves(t) {
			f(e.cellMap(t, l), ref, n, l)
			n++
		}
	}
	rec(t, ref)
}

// load reads a value of type t at a pointer value.
func (x *Exec) load(st *State, p *Val, t types.Type) *Val {
	v := &Val{T: t}
	if p.LV != nil {
		for _, l := range x.e.leaves(t) {
			v.L = append(v.L, sel(x.get(st, x.e.fieldMap(p.LV.strT, p.LV.fld, l)), p.LV.base))
		}
		return v
	}
	x.e.eachCell(t, p.L[0], func(m, ref string, _ int, _ Leaf) {
		v.L = append(v.L, sel(x.get(st, m), ref))
	})
	return v
}

func (x *Exec) store(st *State, p *Val, v *Val) {
	t := v.T
	if p.LV != nil {
		for i, l := range x.e.leaves(t) {
			m := x.e.fieldMap(p.LV.strT, p.LV.fld, l)
			x.setMap(st, m, fmt.Sprintf("(store %s %s %s)", x.get(st, m), p.LV.base, v.L[i]))
		}
		return
	}
	x.e.eachCell(t, p.L[0], func(m, ref string, i int, _ Leaf) {
		x.setMap(st, m, fmt.Sprintf("(store %s %s %s)", x.get(st, m), ref, v.L[i]))
	})
}

func (x *Exec) setMap(st *State, m, term string) {
	st.maps[m] = x.def("m."+m, x.e.mapSort[m], term)
}

// zero is the zero value of a type.
func (x *Exec) zero(t types.Type) *Val {
	v := &Val{T: t}
	for _, l := range x.e.leaves(t) {
		v.L = append(v.L, x.zeroLeaf(l))
	}
	return v
}

func (x *Exec) zeroLeaf(l Leaf) string {
	switch l.sort {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "Str":
		return x.strConst("")
	case "Ref":
		return "null"
	case "Any":
		return "nilAny"
	case "Flt":
		return "fltZero"
	}
	n := sym("zero." + l.sort)
	if !x.declared[n] {
		x.declared[n] = true
		x.emitFront(fmt.Sprintf("(declare-const %s %s)", n, l.sort))
	}
	return n
}

// fresh makes an unconstrained value.
func (x *Exec) fresh(name string, t types.Type) *Val {
	if tt, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			v.Tup = append(v.Tup, x.fresh(fmt.Sprintf("%s.%d", name, i), tt.At(i).Type()))
		}
		return v
	}
	v := &Val{T: t}
	for _, l := range x.e.leaves(t) {
		n := name
		if l.path != "" {
			n += "." + l.path
		}
		v.L = append(v.L, x.declare(n, l.sort))
	}
	return v
}

// valid states what every value that exists in a state satisfies.
func (x *Exec) valid(st *State, v *Val) []string {
	var out []string
	ls := x.e.leaves(v.T)
	for i, l := range ls {
		switch l.kind {
		case "ref":
			out = append(out, fmt.Sprintf("(< (root %s) %s)", v.L[i], st.cnt))
		case "arr":
			a, o, n, c := v.L[i], v.L[i+1], v.L[i+2], v.L[i+3]
			out = append(out, fmt.Sprintf("(and (<= 0 %s) (< %s %s) (<= 0 %s) (<= 0 %s) (<= %s %s) (=> (= %s 0) (= %s 0)))", a, a, st.cnt, o, n, n, c, a, c))
		case "map":
			out = append(out, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v.L[i], v.L[i], st.cnt))
		case "int":
			if b, ok := l.typ.Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsUnsigned != 0:
					out = append(out, fmt.Sprintf("(<= 0 %s)", v.L[i]))
				}
			}
		}
	}
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
