package main

// Calls: contracts, inlining, builtins and the models of library functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// conName is the name of a function in contract files.
func conName(f *ssa.Function) string {
	if f.Parent() != nil {
		return conName(f.Parent()) + "$" + f.Name()[strings.LastIndex(f.Name(), "$")+1:]
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return p + "." + f.Name()
}

func (x *Exec) call(fr *Frame, in *ssa.Call, c *ssa.CallCommon, st *State, r string) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, in, b, c, st, r)
		return r
	}
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		x.oblige("safety", "nil interface call", r, not(eq(recv.L[0], "nilAny")), in.Pos(), []string{"C01"})
		x.unknownResult(fr, in, st, r, "method "+c.Method.FullName())
		return r
	}
	var args []*Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	var f *ssa.Function
	var bind []*Val
	if f = c.StaticCallee(); f == nil || len(f.FreeVars) > 0 {
		v := x.val(fr, c.Value)
		if v.Clo == nil {
			x.oblige("safety", "nil function call", r, not(eq(v.L[0], "0")), in.Pos(), []string{"C01"})
			// one of the functions of that type: whatever one of them may write is unknown afterwards
			w := map[string]bool{}
			for _, g := range x.e.sigTargets(c.Signature()) {
				for m := range x.e.writesOf(g) {
					w[m] = true
				}
			}
			x.havoc(st, w)
			x.unknownResult(fr, in, st, r, "a function value")
			return r
		}
		f, bind = v.Clo.fn, v.Clo.bind
	}
	name := conName(f)
	if con := x.e.db.C[name]; con != nil && !con.Inline {
		return x.callContract(fr, in, f, con, args, bind, st, r)
	}
	if x.e.inModule(f) {
		for g := fr; g != nil; g = g.parent {
			if g.fn == f && f.Parent() != nil { // a recursive function literal: whatever it may write is unknown afterwards
				x.havoc(st, x.e.writesOf(f))
				x.unknownResult(fr, in, st, r, "the recursive function literal "+name)
				return r
			}
			if g.fn == f {
				panic(unsupported("recursive function without contract: " + name))
			}
		}
		if fr.depth > 6 {
			panic(unsupported("inlining too deep at " + name))
		}
		nf := &Frame{fn: f, vals: map[ssa.Value]*Val{}, parent: fr, call: in, depth: fr.depth + 1}
		for i, p := range f.Params {
			nf.vals[p] = args[i]
		}
		for i, p := range f.FreeVars {
			nf.vals[p] = bind[i]
		}
		vals, out, rr := x.run(nf, st.clone(), r)
		*st = *out
		x.setResults(fr, in, vals)
		return rr
	}
	if x.model(fr, in, f, c, args, st, r) {
		return r
	}
	x.unknownResult(fr, in, st, r, "function "+f.String())
	return r
}

func (x *Exec) havoc(st *State, w map[string]bool) {
	for _, m := range sortedKeys(w) {
		x.setMap(st, m, x.declare("dyn."+m, x.e.mapSort[m]))
	}
}

// sigTargets: the functions of the module that a function value of the type may stand for.
func (e *Eng) sigTargets(sig *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range sortedKeys(e.fnByName) {
		f := e.fnByName[n]
		if f.Signature.Recv() == nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()),
			types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			out = append(out, f)
		}
	}
	return out
}

func (x *Exec) setResults(fr *Frame, in *ssa.Call, vals []*Val) {
	if len(vals) == 1 {
		v := *vals[0]
		fr.vals[in] = &v
		return
	}
	fr.vals[in] = &Val{T: in.Type(), Tup: vals}
}

// unknownResult: a call of code outside the repository, which does not touch memory of the repository's types.
func (x *Exec) unknownResult(fr *Frame, in *ssa.Call, st *State, r, what string) {
	if !x.termMode {
		x.e.trustUsed["no contract on "+what+": any result; assumed to terminate without panic and to leave the memory the contracts speak about unchanged"] = true
	}
	cn := x.declare("cnt", "Int")
	x.assume(fmt.Sprintf("(<= %s %s)", st.cnt, cn), cn)
	st.cnt = cn
	v := x.fresh("ext", in.Type())
	x.assumeValid(st, v, r)
	fr.vals[in] = v
}

func (x *Exec) builtin(fr *Frame, in *ssa.Call, b *ssa.Builtin, c *ssa.CallCommon, st *State, r string) {
	arg := func(i int) *Val { return x.val(fr, c.Args[i]) }
	switch b.Name() {
	case "len":
		a := arg(0)
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			fr.vals[in] = one(in.Type(), a.L[2])
		case *types.Basic:
			fr.vals[in] = one(in.Type(), fmt.Sprintf("(strlen %s)", a.L[0]))
		default:
			v := x.fresh("len", in.Type())
			x.assume(fmt.Sprintf("(<= 0 %s)", v.L[0]), v.L[0])
			fr.vals[in] = v
		}
	case "cap":
		fr.vals[in] = one(in.Type(), arg(0).L[3])
	case "append":
		x.set(fr, in, x.appendTo(fr, c, st, r), st, r)
	case "delete":
		m, k := arg(0), arg(1)
		d := x.e.domMap(c.Args[0].Type())
		D := x.get(st, d)
		x.setMap(st, d, fmt.Sprintf("(store %s %s (store (select %s %s) %s false))", D, m.L[0], D, m.L[0], k.L[0]))
	case "copy":
		dst, src := arg(0), arg(1)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := x.def("ncopy", "Int", fmt.Sprintf("(ite (< %s %s) %s %s)", dst.L[2], src.L[2], dst.L[2], src.L[2]))
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); !ok {
			panic(unsupported("copy from string"))
		}
		x.copyElems(st, et, dst.L[0], dst.L[1], src.L[0], src.L[1], "0", n, r)
		if in.Type() != nil {
			fr.vals[in] = one(types.Typ[types.Int], n)
		}
	case "ssa:wrapnilchk":
		fr.vals[in] = arg(0)
	case "print", "println":
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

// copyElems copies n elements src[0..n) to dst[at..at+n), reading from the state before.
func (x *Exec) copyElems(st *State, et types.Type, darr, doff, sarr, soff, at, n, r string) {
	for _, p := range x.elemPaths(et) {
		old := x.get(st, p.m)
		nm := x.declare("cp."+p.m, x.e.mapSort[p.m])
		de := func(i string) string { return fmt.Sprintf("(elem %s (ix %s %s))", darr, plus(doff, at), i) }
		se := func(i string) string { return fmt.Sprintf("(elem %s (ix %s %s))", sarr, soff, i) }
		win := fmt.Sprintf("(and %s (= (earr (own q!r)) %s) (<= (+ %s %s) (eidx (own q!r))) (< (eidx (own q!r)) (+ %s %s %s)))", p.place("q!r"), darr, doff, at, doff, at, n)
		x.assume(fmt.Sprintf("(forall ((q!r Ref)) (! (=> (not %s) (= (select %s q!r) (select %s q!r))) :pattern ((select %s q!r))))", win, nm, old, nm), nm)
		x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern ((elem %s (ix %s q!i)))))",
			n, nm, p.ref(de("q!i")), old, p.ref(se("q!i")), sarr, soff), nm)
		if at == "0" {
			x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern ((elem %s (ix %s q!i)))))",
				n, nm, p.ref(de("q!i")), old, p.ref(se("q!i")), darr, plus(doff, at)), nm)
		} else {
			x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= %s q!i) (< q!i (+ %s %s))) (= (select %s %s) (select %s %s))) :pattern ((elem %s (ix %s q!i)))))",
				at, at, n, nm, p.ref(fmt.Sprintf("(elem %s (ix %s q!i))", darr, doff)), old, p.ref(se(fmt.Sprintf("(- q!i %s)", at))), darr, doff), nm)
		}
		st.maps[p.m] = nm
	}
}

type elemPath struct {
	m    string
	tags []int
}

func (p elemPath) ref(base string) string {
	for _, t := range p.tags {
		base = fmt.Sprintf("(fld %s %d)", base, t)
	}
	return base
}

// place: the reference is at the end of the path in an element of some array.
func (p elemPath) place(q string) string {
	tag := ""
	if len(p.tags) > 0 {
		tag = fmt.Sprint(p.tags[len(p.tags)-1])
	}
	return elemPlace(q, tag)
}

func elemPlace(q, tag string) string {
	if tag == "" {
		return fmt.Sprintf("((_ is elem) %s)", q)
	}
	return fmt.Sprintf("((_ is fld) %s) (= (ftag %s) %s) ((_ is elem) (own %s))", q, q, tag, q)
}

// elemPaths lists the memory maps of the leaves of an element, each with its path.
// A map may occur once only: element types that contain the same struct twice are not supported.
func (x *Exec) elemPaths(t types.Type) []elemPath {
	var out []elemPath
	seen := map[string]bool{}
	var rec func(t types.Type, tags []int)
	rec = func(t types.Type, tags []int) {
		if x.e.isStruct(t) {
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if x.e.isStruct(ft) {
					rec(ft, append(append([]int{}, tags...), x.e.tag(t, i)))
					continue
				}
				for _, l := range x.e.leaves(ft) {
					out = append(out, elemPath{x.e.fieldMap(t, i, l), tags})
				}
			}
			return
		}
		for _, l := range x.e.leaves(t) {
			out = append(out, elemPath{x.e.cellMap(t, l), tags})
		}
	}
	rec(t, nil)
	for _, p := range out {
		if seen[p.m] {
			panic(unsupported("element type with repeated struct " + t.String()))
		}
		seen[p.m] = true
	}
	return out
}

// appendTo models append(s, t...): in place when the capacity suffices, otherwise in a fresh array.
func (x *Exec) appendTo(fr *Frame, c *ssa.CallCommon, st *State, r string) *Val {
	s := x.val(fr, c.Args[0])
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	add := x.val(fr, c.Args[1])
	if _, ok := c.Args[1].Type().Underlying().(*types.Slice); !ok {
		panic(unsupported("append of string"))
	}
	k := add.L[2]
	n := x.def("len", "Int", plus(s.L[2], k))
	grow := x.def("grow", "Bool", fmt.Sprintf("(> %s %s)", n, s.L[3]))
	id := x.newObj(st)
	cp := x.declare("cap", "Int")
	x.assume(fmt.Sprintf("(and (<= %s %s) (=> (not %s) (= %s %s)))", n, cp, grow, cp, s.L[3]), cp)
	arr := x.def("arr", "Int", ite(grow, id, s.L[0]))
	off := x.def("off", "Int", ite(grow, "0", s.L[1]))
	res := &Val{T: c.Args[0].Type(), L: []string{arr, off, n, cp}}
	// Old elements: when the array is fresh, elements [0,len) are copies.
	single := ""
	if k == "1" {
		single = "1"
	}
	for _, p := range x.elemPaths(et) {
		old := x.get(st, p.m)
		nm := x.declare("ap."+p.m, x.e.mapSort[p.m])
		o := "(own q!r)"
		// unchanged outside the result window's written part
		chg := fmt.Sprintf("(and %s (= (earr %s) %s) (or %s (and (<= (+ %s %s) (eidx %s)) (< (eidx %s) (+ %s %s)))))",
			p.place("q!r"), o, arr, grow, off, s.L[2], o, o, off, n)
		x.assume(fmt.Sprintf("(forall ((q!r Ref)) (! (=> (not %s) (= (select %s q!r) (select %s q!r))) :pattern ((select %s q!r))))", chg, nm, old, nm), nm)
		e := fmt.Sprintf("(elem %s (ix %s q!i))", arr, off)
		x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern (%s)))",
			s.L[2], nm, p.ref(e), old, p.ref(fmt.Sprintf("(elem %s (ix %s q!i))", s.L[0], s.L[1])), e), nm)
		e2 := fmt.Sprintf("(elem %s (ix %s q!i))", s.L[0], s.L[1])
		x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern (%s)))",
			s.L[2], nm, p.ref(e), old, p.ref(e2), e2), nm)
		if single != "" {
			x.assume(fmt.Sprintf("(= (select %s %s) (select %s %s))", nm, p.ref(fmt.Sprintf("(elem %s (ix %s %s))", arr, off, s.L[2])),
				old, p.ref(fmt.Sprintf("(elem %s (ix %s 0))", add.L[0], add.L[1]))), nm)
		} else {
			x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= %s q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern (%s)))",
				s.L[2], n, nm, p.ref(e), old, p.ref(fmt.Sprintf("(elem %s (ix %s (- q!i %s)))", add.L[0], add.L[1], s.L[2])), e), nm)
			x.assume(fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern (%s)))",
				k, nm, p.ref(fmt.Sprintf("(elem %s (ix %s (+ %s q!i)))", arr, off, s.L[2])), old, p.ref(fmt.Sprintf("(elem %s (ix %s q!i))", add.L[0], add.L[1])),
				fmt.Sprintf("(elem %s (ix %s q!i))", add.L[0], add.L[1])), nm)
		}
		st.maps[p.m] = nm
	}
	return res
}

// callContract replaces a call by the contract of the callee.
func (x *Exec) callContract(fr *Frame, in *ssa.Call, f *ssa.Function, con *Contract, args, bind []*Val, st *State, r string) string {
	if x.termMode {
		panic(unsupported("contract call in a comparison function"))
	}
	x.e.usedCon[con.Name] = true
	if con.Trusted != "" {
		x.e.trustUsed["contract of "+con.Name+" is assumed: "+con.Trusted] = true
	}
	pre := st.clone()
	if x.con != nil {
		for _, k := range x.con.Stable {
			if k.Func == con.Name {
				if x.snaps == nil {
					x.snaps = map[string][]*State{}
				}
				x.snaps[con.Name] = append(x.snaps[con.Name], pre)
			}
		}
	}
	names := x.paramNames(f, args, bind)
	ctx := &SpecCtx{x: x, st: pre, old: pre, names: names, pkg: x.e.fnPkg(f)}
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	for _, c := range con.Requires {
		if x.con != nil {
			con0 := x.con
			if con0.Base != nil {
				con0 = con0.Base
			}
			proved := x.con.ProvePre[con.Name] || x.con.ProvePre[con.Name+"/"+c.Name]
			if proved {
				x.proving = true
				x.obligeSplit("pre", con.Name+"/"+c.Name, r, x.evalGoal(ctx, c), pos, c.Props)
				x.proving = false
				continue
			}
			for _, a := range con0.Aspects {
				if a.ProvePre[con.Name] || a.ProvePre[con.Name+"/"+c.Name] {
					x.e.usedCon[a.Name] = true
					proved = true
				}
			}
			if proved {
				x.assume(imp(r, x.evalBool(ctx, c)), "")
				continue
			}
			why, ok := con0.AssumePre[con.Name]
			if !ok {
				why, ok = con0.AssumePre[con.Name+"/"+c.Name]
			}
			if ok {
				x.e.trustUsed["precondition "+c.Name+" of "+con.Name+" at the calls in "+con0.Name+" is assumed: "+why] = true
				x.assume(imp(r, x.evalBool(ctx, c)), "")
				continue
			}
		}
		x.obligeSplit("pre", con.Name+"/"+c.Name, r, x.evalGoal(ctx, c), pos, c.Props)
	}
	x.checkTInv(pre, r, "call "+con.Name)
	if x.e.scc[f] != 0 && x.fn != nil && x.e.scc[f] == x.e.scc[x.fn] && x.con != nil && x.con.NoTerm == "" {
		var now []string
		for _, d := range con.Dec {
			now = append(now, x.evalSpec(ctx, d.E).L[0])
		}
		if len(now) == 0 || len(now) != len(x.measure) {
			x.oblige("dec", "call "+con.Name, r, "false", pos, []string{"C01"})
		} else {
			x.oblige("dec", "call "+con.Name, r, lexLess(now, x.measure), pos, []string{"C01"})
		}
	}
	entries := x.modEntries(con.Modifies, ctx)
	w := map[string]bool{}
	if !con.Pure {
		for m := range x.e.writesOf(f) {
			w[m] = true
		}
		for _, e := range entries {
			for m := range e.maps {
				w[m] = true
			}
		}
		cn := x.declare("cnt", "Int")
		x.assume(fmt.Sprintf("(<= %s %s)", st.cnt, cn), cn)
		st.cnt = cn
	}
	for _, m := range sortedKeys(w) {
		old := x.get(pre, m)
		nm := x.declare("c."+m, x.e.mapSort[m])
		st.maps[m] = nm
		x.assume(imp(r, x.frameFormula(m, nm, old, pre.cnt, entries, "q!r")), nm)
		listed := false
		for _, e := range entries {
			listed = listed || e.maps[m]
		}
		if !listed && x.isFramed(m, old) {
			x.setFramed(nm)
		}
	}
	x.assumeKept(con, pre, st, w, r)
	res := f.Signature.Results()
	var vals []*Val
	for i := 0; i < res.Len(); i++ {
		v := x.fresh("res."+f.Name(), res.At(i).Type())
		x.assumeValid(st, v, r)
		vals = append(vals, v)
	}
	post := &SpecCtx{x: x, st: st.clone(), old: pre, names: names, pkg: x.e.fnPkg(f), results: vals, resNames: res}
	for _, g := range con.Ghost {
		v := x.ghostConst(g, f)
		names[g.Name] = v
		x.ghostVals[g.Name] = v
	}
	x.tag = bareName(con.Name)
	for _, c := range con.Ensures {
		x.assume(imp(r, x.evalBool(post, c)), "")
	}
	for _, a := range con.Aspects {
		if !x.inScope(a) {
			continue
		}
		x.e.usedCon[a.Name] = true
		for _, c := range a.Ensures {
			x.assume(imp(r, x.evalBool(post, c)), "")
		}
	}
	x.tag = ""
	x.assumeTInv(st, r)
	if in != nil {
		x.setResults(fr, in, vals)
	}
	return r
}

// assumeKept: the memory that the contract of the calling function assumes to be separate from what the callee
// works on.
func (x *Exec) assumeKept(con *Contract, pre, st *State, w map[string]bool, r string) {
	if x.con == nil || len(x.con.Keeps) == 0 {
		return
	}
	ctx := &SpecCtx{x: x, st: pre, old: x.entry, fr: x.top, pkg: x.e.fnPkg(x.fn)}
	for _, k := range x.con.Keeps {
		if k.Func != con.Name {
			continue
		}
		x.e.trustUsed["calls of "+con.Name+" in "+x.fnName()+" are assumed to leave "+k.Loc.Text+" unchanged: "+k.Why] = true
		for _, e := range x.modEntry(k.Loc.E, ctx) {
			for _, m := range sortedKeys(e.maps) {
				if !w[m] || strings.Contains(m, ".$") {
					continue
				}
				nm, old := x.get(st, m), x.get(pre, m)
				s := "Ref"
				if strings.HasPrefix(x.e.mapSort[m], "(Array Int") {
					s = "Int"
				}
				x.assume(imp(r, fmt.Sprintf("(forall ((q!r %s)) (! (=> %s (= (select %s q!r) (select %s q!r))) :pattern ((select %s q!r))))", s, e.pred("q!r"), nm, old, nm)), nm)
			}
		}
	}
}

// stable instantiates the lemmas that relate earlier states to the present one.
func (x *Exec) stable(ctx *SpecCtx, guard string) {
	if x.con == nil {
		return
	}
	for _, k := range x.con.Stable {
		for _, s := range x.snaps[k.Func] {
			c := ctx.copy()
			c.old = s
			x.evalHint(c, k.Loc, guard)
		}
	}
}

func (x *Exec) fnName() string {
	if x.con.Base != nil {
		return x.con.Base.Name
	}
	return x.con.Name
}

func (x *Exec) ghostConst(g Param, f *ssa.Function) *Val {
	t, s := x.e.specType(g.Type, x.e.fnPkg(f))
	if t != nil {
		return x.fresh("ghost."+g.Name, t)
	}
	return &Val{S: s, L: []string{x.declare("ghost."+g.Name, s)}}
}

func (x *Exec) paramNames(f *ssa.Function, args, bind []*Val) map[string]*Val {
	names := map[string]*Val{}
	if len(f.Params) == len(args) && len(args) > 0 {
		for i, p := range f.Params {
			names[p.Name()] = args[i]
		}
	} else {
		k := 0
		if rc := f.Signature.Recv(); rc != nil {
			names[rc.Name()] = args[0]
			k = 1
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			names[f.Signature.Params().At(i).Name()] = args[k+i]
		}
	}
	for i, p := range f.FreeVars {
		v := *bind[i]
		names["&"+p.Name()] = &v
	}
	return names
}

func (e *Eng) fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

// model gives meaning to some library functions.
func (x *Exec) model(fr *Frame, in *ssa.Call, f *ssa.Function, c *ssa.CallCommon, args []*Val, st *State, r string) bool {
	trust := func(s string) {
		if !x.termMode {
			x.e.trustUsed["model of "+f.String()+": "+s] = true
		}
	}
	switch f.String() {
	case "strings.ToLower":
		trust("an idempotent function of the string")
		fr.vals[in] = one(in.Type(), fmt.Sprintf("(lower %s)", args[0].L[0]))
	case "strings.EqualFold":
		trust("an equivalence of strings")
		fr.vals[in] = one(in.Type(), fmt.Sprintf("(= (fold %s) (fold %s))", args[0].L[0], args[1].L[0]))
	case "errors.New", "fmt.Errorf":
		trust("returns a non-nil error")
		v := x.fresh("err", in.Type())
		x.assume(not(eq(v.L[0], "nilAny")), v.L[0])
		fr.vals[in] = v
	case "strconv.Itoa":
		trust("an injective function")
		fr.vals[in] = one(in.Type(), fmt.Sprintf("(itoa %s)", args[0].L[0]))
	case "strings.Join":
		trust("returns some string")
		fr.vals[in] = x.fresh("join", in.Type())
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte":
		trust("appends to the text of the builder")
		bt := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
		old := x.load(st, args[0], bt).L[0]
		add := args[1].L[0]
		if f.Name() != "WriteString" {
			if k, ok := c.Args[1].(*ssa.Const); ok {
				add = x.strConst(string(rune(k.Int64())))
			} else {
				add = fmt.Sprintf("(runestr %s)", add)
			}
		}
		x.store(st, args[0], &Val{T: bt, L: []string{fmt.Sprintf("(strcat %s %s)", old, add)}})
		fr.vals[in] = x.fresh("wr", in.Type())
	case "(*strings.Builder).Reset":
		trust("empties the builder")
		bt := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
		x.store(st, args[0], x.zero(bt))
	case "(*strings.Builder).Grow":
	case "(*strings.Builder).String":
		trust("the text written to the builder")
		fr.vals[in] = one(in.Type(), x.load(st, args[0], c.Args[0].Type().Underlying().(*types.Pointer).Elem()).L[0])
	case "(*encoding/base64.Encoding).EncodeToString":
		cv, ok := c.Args[1].(*ssa.Convert)
		if !ok || !isStr(cv.X.Type()) || users(cv) != 1 {
			return false
		}
		trust("an injective function of the bytes whose results are dot-free")
		fr.vals[in] = one(in.Type(), fmt.Sprintf("(b64 %s)", x.val(fr, cv.X).L[0]))
	case "sort.SliceStable":
		trust("a stable sort by the given strict weak order (which is an obligation)")
		x.sliceStable(fr, in, c, args, st, r)
	default:
		return false
	}
	return true
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// users counts the instructions that use a value, without debug information.
func users(v ssa.Value) int {
	n := 0
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			n++
		}
	}
	return n
}

// sliceStable: the elements are permuted, sorted, and equivalent elements keep their order.
func (x *Exec) sliceStable(fr *Frame, in *ssa.Call, c *ssa.CallCommon, args []*Val, st *State, r string) {
	mi, ok := c.Args[0].(*ssa.MakeInterface)
	if !ok {
		panic(unsupported("sort of a dynamic value"))
	}
	s := x.val(fr, mi.X)
	et := mi.X.Type().Underlying().(*types.Slice).Elem()
	clo := args[1].Clo
	if clo == nil {
		panic(unsupported("sort with an unknown function"))
	}
	n := s.L[2]
	intT := types.Typ[types.Int]
	less := func(st *State, a, b string, r string) string {
		nf := &Frame{fn: clo.fn, vals: map[ssa.Value]*Val{}, parent: fr, call: in, depth: fr.depth + 1}
		nf.vals[clo.fn.Params[0]] = one(intT, a)
		nf.vals[clo.fn.Params[1]] = one(intT, b)
		for i, p := range clo.fn.FreeVars {
			nf.vals[p] = clo.bind[i]
		}
		vals, _, _ := x.run(nf, st.clone(), r)
		return vals[0].L[0]
	}
	// safety of the comparison
	a, b, d := x.declare("sa", "Int"), x.declare("sb", "Int"), x.declare("sd", "Int")
	rng := func(v string) string { return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v, v, n) }
	g := x.def("rs", "Bool", and(r, rng(a), rng(b), rng(d)))
	less(st, a, b, g)
	x.termMode = true
	ab, ba := less(st, a, b, "true"), less(st, b, a, "true")
	bd, db := less(st, b, d, "true"), less(st, d, b, "true")
	ad, da := less(st, a, d, "true"), less(st, d, a, "true")
	x.termMode = false
	x.oblige("pre", "sort.SliceStable/strict weak order", g,
		fmt.Sprintf("(and (=> %s (not %s)) (=> (and %s %s) %s) (=> (and (not %s) (not %s) (not %s) (not %s)) (and (not %s) (not %s))))", ab, ba, ab, bd, ad, ab, ba, bd, db, ad, da), in.Pos(), nil)
	pi, ka := x.declare("perm", "(Array Int Int)"), x.declare("inv", "(Array Int Int)")
	x.ghostVals["sortperm"] = &Val{S: "(Array Int Int)", L: []string{pi}}
	x.ghostVals["sortinv"] = &Val{S: "(Array Int Int)", L: []string{ka}}
	bij := func(p, q string) string {
		return fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (and (<= 0 (select %s q!i)) (< (select %s q!i) %s) (= (select %s (select %s q!i)) q!i))) :pattern ((select %s q!i))))", n, p, p, n, q, p, p)
	}
	x.assume(imp(r, bij(pi, ka)), pi)
	x.assume(imp(r, bij(ka, pi)), ka)
	elem := func(i string) string { return fmt.Sprintf("(elem %s (ix %s %s))", s.L[0], s.L[1], i) }
	for _, p := range x.elemPaths(et) {
		old := x.get(st, p.m)
		nm := x.declare("so."+p.m, x.e.mapSort[p.m])
		win := fmt.Sprintf("(and %s (= (earr (own q!r)) %s) (<= %s (eidx (own q!r))) (< (eidx (own q!r)) (+ %s %s)))", p.place("q!r"), s.L[0], s.L[1], s.L[1], n)
		x.assume(fmt.Sprintf("(forall ((q!r Ref)) (! (=> (not %s) (= (select %s q!r) (select %s q!r))) :pattern ((select %s q!r))))", win, nm, old, nm), nm)
		x.assume(imp(r, fmt.Sprintf("(forall ((q!i Int)) (! (=> (and (<= 0 q!i) (< q!i %s)) (= (select %s %s) (select %s %s))) :pattern (%s) :pattern ((select %s q!i))))",
			n, nm, p.ref(elem("q!i")), old, p.ref(elem(fmt.Sprintf("(select %s q!i)", pi))), elem("q!i"), pi)), nm)
		st.maps[p.m] = nm
	}
	x.termMode = true
	ij, ji := less(st, "q!i", "q!j", "true"), less(st, "q!j", "q!i", "true")
	x.termMode = false
	x.assume(imp(r, fmt.Sprintf("(forall ((q!i Int) (q!j Int)) (! (=> (and (<= 0 q!i) (< q!i q!j) (< q!j %s)) (and (not %s) (or %s (< (select %s q!i) (select %s q!j))))) :pattern (%s %s) :pattern ((select %s q!i) (select %s q!j))))",
		n, ji, ij, pi, pi, elem("q!i"), elem("q!j"), pi, pi)), pi)
	x.ghostVals["sortn"] = one(intT, n)
}

// inScope: whether the proof may use an aspect of a callee; the proof of a contract of the property of the run uses what
// speaks about that property, other contracts use what speaks about their own properties.
func (x *Exec) inScope(a *Contract) bool {
	if x.e.prop == "" || x.con == nil || a.speaksOf(x.e.prop) {
		return true
	}
	if x.con.speaksOf(x.e.prop) {
		return false
	}
	for _, p := range x.con.Props {
		if a.speaksOf(p) {
			return true
		}
	}
	return false
}
