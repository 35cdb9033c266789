package main

// Evaluation of specification expressions to SMT terms.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SpecCtx struct {
	x        *Exec
	st, old  *State
	names    map[string]*Val
	bound    map[string]*Val
	pkg      *types.Package
	fr       *Frame
	block    *ssa.BasicBlock
	phis     map[*ssa.Phi]*Val
	loop     *Loop
	results  []*Val
	resNames *types.Tuple
	inOld    bool
	noUnfold bool
	lemmaOK  bool // a call of a lemma is an instance of it
	atExit   bool
	upto     int
	pats     *[]string
}

func (c *SpecCtx) copy() *SpecCtx { d := *c; return &d }

type ModEntry struct {
	maps map[string]bool
	pred func(q string) string
}

// specType resolves a type written in a contract: a Go type, or a specification sort.
func (e *Eng) specType(s string, pkg *types.Package) (types.Type, string) {
	switch {
	case strings.HasPrefix(s, "[]"):
		t, _ := e.specType(s[2:], pkg)
		return types.NewSlice(t), ""
	case strings.HasPrefix(s, "*"):
		t, _ := e.specType(s[1:], pkg)
		return types.NewPointer(t), ""
	case strings.HasPrefix(s, "map["):
		d, i := 1, 4
		for ; d > 0; i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
			}
		}
		k, _ := e.specType(s[4:i-1], pkg)
		v, _ := e.specType(s[i:], pkg)
		return types.NewMap(k, v), ""
	case s == "struct{}":
		return types.NewStruct(nil, nil), ""
	case s == "any" || s == "interface{}":
		return types.NewInterfaceType(nil, nil), ""
	}
	if e.db.Sorts[s] {
		return nil, s
	}
	if s == "IntArray" {
		return nil, "(Array Int Int)"
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), ""
		}
	}
	name := s
	if i := strings.Index(s, "."); i >= 0 {
		if p := e.pkgByName[s[:i]]; p != nil {
			pkg = p.Pkg
		}
		name = s[i+1:]
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), ""
			}
		}
	}
	for _, p := range []string{"types", "postprocess", "core", "parser"} {
		if sp := e.pkgByName[p]; sp != nil {
			if o := sp.Pkg.Scope().Lookup(name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type(), ""
				}
			}
		}
	}
	panic(fmt.Errorf("unknown type %q in contract", s))
}

func (e *Eng) lookupConst(name string, pkg *types.Package) *types.Const {
	if pkg != nil {
		if c, ok := pkg.Scope().Lookup(name).(*types.Const); ok {
			return c
		}
	}
	for _, p := range []string{"types", "postprocess", "core", "parser"} {
		if sp := e.pkgByName[p]; sp != nil {
			if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return c
			}
		}
	}
	return nil
}

func boolV(s string) *Val { return &Val{T: types.Typ[types.Bool], L: []string{s}} }
func intV(s string) *Val  { return &Val{T: types.Typ[types.Int], L: []string{s}} }

func (c *SpecCtx) fail(f string, a ...any) {
	panic(fmt.Errorf("contract of %s: "+f, append([]any{c.x.name}, a...)...))
}

func (x *Exec) evalBool(ctx *SpecCtx, cl Clause) string {
	v := x.evalSpec(ctx, cl.E)
	if len(v.L) != 1 {
		ctx.fail("clause %s is not boolean", cl.Name)
	}
	return v.L[0]
}

// evalGoal splits a conjunction into its parts.
func (x *Exec) evalGoal(ctx *SpecCtx, cl Clause) []string {
	var out []string
	var rec func(n *Node, pre string)
	rec = func(n *Node, pre string) {
		if n.Op == "bin" && n.S == "&&" {
			rec(n.A[0], pre)
			rec(n.A[1], pre)
			return
		}
		if n.Op == "bin" && n.S == "==>" {
			rec(n.A[1], and(pre, x.evalSpec(ctx, n.A[0]).L[0]))
			return
		}
		if n.Op == "call" && n.S == "valid" {
			// every slice, map and pointer value of a Go program is well formed
			x.evalSpec(ctx, n)
			x.e.trustUsed["type safety of Go: every slice and pointer in memory is well formed"] = true
			return
		}
		out = append(out, imp(pre, x.evalSpec(ctx, n).L[0]))
	}
	rec(cl.E, "true")
	return out
}

func (x *Exec) obligeSplit(kind, name, guard string, goals []string, pos token.Pos, props []string) {
	for i, g := range goals {
		n := name
		if len(goals) > 1 {
			n = fmt.Sprintf("%s.%d", name, i+1)
		}
		x.oblige(kind, n, guard, g, pos, props)
	}
}

// evalHint instantiates lemmas and unfolds definitions.
func (x *Exec) evalHint(ctx *SpecCtx, cl Clause, guard string) {
	x.hintName, x.tag, x.using = cl.Name, cl.Name, cl.Using
	x.evalHintNode(ctx, cl.E, guard)
	x.tag, x.using = "", nil
}

func (x *Exec) evalHintNode(ctx *SpecCtx, n *Node, guard string) {
	switch {
	case n.Op == "bin" && n.S == "&&":
		x.evalHintNode(ctx, n.A[0], guard)
		x.evalHintNode(ctx, n.A[1], guard)
		return
	case n.Op == "bin" && n.S == "==>":
		x.evalHintNode(ctx, n.A[1], and(guard, x.evalSpec(ctx, n.A[0]).L[0]))
		return
	case n.Op == "forall" && x.lemmaBody(n):
		c := ctx.copy()
		c.lemmaOK = true
		x.assume(imp(guard, x.evalSpec(c, n).L[0]), "")
		return
	case n.Op == "forall":
		// an intermediate assertion: proved, then used
		x.obligeSplit("assert", "hint/"+x.hintName, guard, x.evalGoal(ctx, Clause{E: n}), token.NoPos, nil)
		x.assume(imp(guard, x.evalSpec(ctx, n).L[0]), "")
		return
	case n.Op == "call" && n.S == "assert":
		x.obligeSplit("assert", "hint/"+x.hintName, guard, x.evalGoal(ctx, Clause{E: n.A[0]}), token.NoPos, nil)
		x.assume(imp(guard, x.evalSpec(ctx, n.A[0]).L[0]), "")
		return
	case n.Op == "call" && x.e.db.Lemmas[n.S] != nil:
		x.assume(imp(guard, x.lemmaInst(ctx, n)), "")
		return
	}
	v := x.evalSpec(ctx, n)
	_ = v
}

// lemmaBody: the expression is an instance of a lemma, guarded and quantified.
func (x *Exec) lemmaBody(n *Node) bool {
	for {
		switch {
		case n.Op == "forall":
			n = n.A[len(n.A)-1]
		case n.Op == "bin" && n.S == "==>":
			n = n.A[1]
		default:
			return n.Op == "call" && x.e.db.Lemmas[n.S] != nil
		}
	}
}

func (x *Exec) lemmaInst(ctx *SpecCtx, n *Node) string {
	lm := x.e.db.Lemmas[n.S]
	x.usedLemma[n.S] = true
	if len(n.A) != len(lm.Params) {
		ctx.fail("lemma %s takes %d arguments", n.S, len(lm.Params))
	}
	names := map[string]*Val{}
	for i, p := range lm.Params {
		v := *x.evalSpec(ctx, n.A[i])
		if v.St == nil {
			v.St = x.stateOf(ctx, n.A[i])
		}
		names[p.Name] = &v
	}
	c := &SpecCtx{x: x, st: ctx.st, old: ctx.old, names: names, pkg: ctx.pkg, noUnfold: ctx.noUnfold}
	var rq, en []string
	for _, r := range lm.Requires {
		rq = append(rq, x.evalBool(c, r))
	}
	for _, r := range lm.Ensures {
		en = append(en, x.evalBool(c, r))
	}
	return imp(and(rq...), and(en...))
}

// stateOf: the memory state an argument of a lemma refers to.
func (x *Exec) stateOf(ctx *SpecCtx, n *Node) *State {
	if n.Op == "call" {
		switch n.S {
		case "old":
			return ctx.old
		case "pre":
			return ctx.loop.stE
		case "head":
			return ctx.loop.stH
		}
	}
	return ctx.st
}

func (x *Exec) mat(ctx *SpecCtx, v *Val) *Val {
	if v.Ref == "" {
		return v
	}
	st := ctx.st
	if v.St != nil {
		st = v.St
	}
	return x.load(st, &Val{T: types.NewPointer(v.T), L: []string{v.Ref}}, v.T)
}

func (x *Exec) stFor(ctx *SpecCtx, v *Val) *State {
	if v.St != nil {
		return v.St
	}
	return ctx.st
}

// at makes the value of type t stored at ref.
func (x *Exec) at(ctx *SpecCtx, base *Val, t types.Type, ref string) *Val {
	if x.e.isStruct(t) {
		return &Val{T: t, Ref: ref, St: base.St}
	}
	v := x.load(x.stFor(ctx, base), &Val{L: []string{ref}}, t)
	v.St = base.St
	return v
}

func (x *Exec) evalSpec(ctx *SpecCtx, n *Node) *Val {
	switch n.Op {
	case "num":
		return intV(n.S)
	case "str":
		return &Val{T: types.Typ[types.String], L: []string{x.strConst(n.S)}}
	case "id":
		return x.lookup(ctx, n.S)
	case "un":
		v := x.evalSpec(ctx, n.A[0])
		if n.S == "!" {
			return boolV(not(v.L[0]))
		}
		return intV("(- " + v.L[0] + ")")
	case "ite":
		c := x.evalSpec(ctx, n.A[0]).L[0]
		a, b := x.mat(ctx, x.evalSpec(ctx, n.A[1])), x.mat(ctx, x.evalSpec(ctx, n.A[2]))
		if len(a.L) != len(b.L) {
			a, b = x.coerce(a, b)
		}
		o := &Val{T: a.T, S: a.S}
		for i := range a.L {
			o.L = append(o.L, ite(c, a.L[i], b.L[i]))
		}
		return o
	case "bin":
		return x.evalBin(ctx, n)
	case "sel":
		return x.evalSel(ctx, n)
	case "idx":
		return x.evalIdx(ctx, n)
	case "slice":
		s := x.mat(ctx, x.evalSpec(ctx, n.A[0]))
		lo := x.evalSpec(ctx, n.A[1]).L[0]
		hi := s.L[2]
		if n.A[2] != nil {
			hi = x.evalSpec(ctx, n.A[2]).L[0]
		}
		return &Val{T: s.T, L: []string{s.L[0], plus(s.L[1], lo), minus(hi, lo), minus(s.L[3], lo)}, St: s.St}
	case "forall", "exists":
		return x.evalQuant(ctx, n)
	case "call":
		if ctx.lemmaOK && x.e.db.Lemmas[n.S] != nil {
			c := ctx.copy()
			c.lemmaOK = false
			return boolV(x.lemmaInst(c, n))
		}
		return x.evalCall(ctx, n)
	}
	ctx.fail("bad expression %s", n.Op)
	return nil
}

func (x *Exec) coerce(a, b *Val) (*Val, *Val) {
	isNil := func(v *Val) bool { return v.S == "nil" }
	if isNil(a) && b.T != nil {
		return x.zero(b.T), b
	}
	if isNil(b) && a.T != nil {
		return a, x.zero(a.T)
	}
	return a, b
}

func (x *Exec) evalBin(ctx *SpecCtx, n *Node) *Val {
	switch n.S {
	case "&&":
		return boolV(and(x.evalSpec(ctx, n.A[0]).L[0], x.evalSpec(ctx, n.A[1]).L[0]))
	case "||":
		return boolV(or(x.evalSpec(ctx, n.A[0]).L[0], x.evalSpec(ctx, n.A[1]).L[0]))
	case "==>":
		return boolV(imp(x.evalSpec(ctx, n.A[0]).L[0], x.evalSpec(ctx, n.A[1]).L[0]))
	case "<==>":
		return boolV(eq(x.evalSpec(ctx, n.A[0]).L[0], x.evalSpec(ctx, n.A[1]).L[0]))
	}
	a, b := x.evalSpec(ctx, n.A[0]), x.evalSpec(ctx, n.A[1])
	switch n.S {
	case "==", "!=":
		var e string
		if a.S == "nil" || b.S == "nil" {
			v := a
			if a.S == "nil" {
				v = b
			}
			v = x.mat(ctx, v)
			z := x.zero(v.T)
			e = eq(v.L[0], z.L[0]) // nil slices have array 0
		} else {
			a, b = x.mat(ctx, a), x.mat(ctx, b)
			if len(a.L) != len(b.L) {
				// interface against concrete value
				if len(a.L) == 1 && a.T != nil && isIface(a.T) {
					b = one(a.T, x.box(b.T, b))
				} else if len(b.L) == 1 && b.T != nil && isIface(b.T) {
					a = one(b.T, x.box(a.T, a))
				} else {
					ctx.fail("comparison of different types (%v, %v)", a.T, b.T)
				}
			}
			var cs []string
			for i := range a.L {
				cs = append(cs, eq(a.L[i], b.L[i]))
			}
			e = and(cs...)
		}
		if n.S == "!=" {
			e = not(e)
		}
		return boolV(e)
	case "<", "<=", ">", ">=":
		return boolV(fmt.Sprintf("(%s %s %s)", n.S, a.L[0], b.L[0]))
	case "+":
		if a.T != nil && x.e.leaves(a.T)[0].sort == "Str" {
			return &Val{T: a.T, L: []string{fmt.Sprintf("(strcat %s %s)", a.L[0], b.L[0])}}
		}
		return intV(plus(a.L[0], b.L[0]))
	case "-":
		return intV(minus(a.L[0], b.L[0]))
	case "*":
		return intV(fmt.Sprintf("(* %s %s)", a.L[0], b.L[0]))
	}
	ctx.fail("operator %s", n.S)
	return nil
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func (x *Exec) evalSel(ctx *SpecCtx, n *Node) *Val {
	if n.A[0].Op == "id" && x.tryLookup(ctx, n.A[0].S) == nil {
		if p := x.e.pkgByName[n.A[0].S]; p != nil {
			if c := x.e.lookupConst(n.S, p.Pkg); c != nil {
				return x.constOf(c)
			}
		}
	}
	v := x.evalSpec(ctx, n.A[0])
	t := v.T
	if t == nil {
		ctx.fail("field %s of a value without Go type", n.S)
	}
	var ref string
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ref = v.L[0]
	} else {
		ref = v.Ref
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		ctx.fail("field %s of %s", n.S, t)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() != n.S {
			continue
		}
		ft := u.Field(i).Type()
		if ref == "" {
			a, b := x.e.fieldRange(t, i)
			return &Val{T: ft, L: v.L[a:b], St: v.St}
		}
		if x.e.isStruct(ft) {
			return &Val{T: ft, Ref: fmt.Sprintf("(fld %s %d)", ref, x.e.tag(t, i)), St: v.St}
		}
		o := &Val{T: ft, St: v.St}
		for _, l := range x.e.leaves(ft) {
			o.L = append(o.L, sel(x.get(x.stFor(ctx, v), x.e.fieldMap(t, i, l)), ref))
			ctx.addPat(o.L[len(o.L)-1])
		}
		return o
	}
	if m, gt := x.e.ghostMap(t, n.S); m != "" {
		if ref == "" {
			ctx.fail("ghost field %s of a value", n.S)
		}
		o := &Val{T: gt, St: v.St, L: []string{sel(x.get(x.stFor(ctx, v), m), ref)}}
		if gt == nil {
			o.S = "(Array Int Int)"
		}
		ctx.addPat(o.L[0])
		return o
	}
	ctx.fail("no field %s in %s", n.S, t)
	return nil
}

func (c *SpecCtx) addPat(s string) {
	if c.pats != nil && boundVar(s) {
		*c.pats = append(*c.pats, s)
	}
}

func (x *Exec) evalIdx(ctx *SpecCtx, n *Node) *Val {
	v := x.mat(ctx, x.evalSpec(ctx, n.A[0]))
	i := x.evalSpec(ctx, n.A[1])
	if v.S != "" {
		if strings.HasPrefix(v.S, "(Array Int ") {
			rs := strings.TrimSuffix(strings.TrimPrefix(v.S, "(Array Int "), ")")
			t := fmt.Sprintf("(select %s %s)", v.L[0], i.L[0])
			ctx.addPat(t)
			if rs == "Int" {
				return intV(t)
			}
			return &Val{S: rs, L: []string{t}}
		}
		ctx.fail("index of sort %s", v.S)
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		ref := fmt.Sprintf("(elem %s (ix %s %s))", v.L[0], v.L[1], i.L[0])
		ctx.addPat(ref)
		return x.at(ctx, v, u.Elem(), ref)
	case *types.Map:
		i = x.mat(ctx, i)
		o := &Val{T: u.Elem(), St: v.St}
		for _, l := range x.e.leaves(u.Elem()) {
			o.L = append(o.L, fmt.Sprintf("(select (select %s %s) %s)", x.get(x.stFor(ctx, v), x.e.valMap(v.T, l)), v.L[0], i.L[0]))
		}
		if len(o.L) > 0 {
			ctx.addPat(o.L[0])
		}
		return o
	}
	ctx.fail("index of %s", v.T)
	return nil
}

func (x *Exec) sortOf(v *Val) []string {
	if v.S != "" {
		return []string{v.S}
	}
	var out []string
	for _, l := range x.e.leaves(v.T) {
		out = append(out, l.sort)
	}
	return out
}

func (x *Exec) evalQuant(ctx *SpecCtx, n *Node) *Val {
	c := ctx.copy()
	c.bound = map[string]*Val{}
	for k, v := range ctx.bound {
		c.bound[k] = v
	}
	var pats []string
	c.pats = &pats
	var decl, rng, vars []string
	for _, v := range n.Vars {
		x.n++
		q := fmt.Sprintf("q!%s!%d", v.Name, x.n)
		if v.Type == "" {
			lo, hi := x.evalSpec(c, v.Lo).L[0], x.evalSpec(c, v.Hi).L[0]
			decl = append(decl, fmt.Sprintf("(%s Int)", q))
			rng = append(rng, fmt.Sprintf("(<= %s %s)", lo, q), fmt.Sprintf("(< %s %s)", q, hi))
			c.bound[v.Name] = intV(q)
			vars = append(vars, q)
			continue
		}
		t, s := x.e.specType(v.Type, x.ctxPkg(ctx))
		if t != nil {
			ls := x.e.leaves(t)
			bv := &Val{T: t}
			for i, l := range ls {
				qq := q
				if i > 0 {
					qq = fmt.Sprintf("%s!%d", q, i)
				}
				decl = append(decl, fmt.Sprintf("(%s %s)", qq, l.sort))
				bv.L = append(bv.L, qq)
				vars = append(vars, qq)
			}
			c.bound[v.Name] = bv
		} else {
			decl = append(decl, fmt.Sprintf("(%s %s)", q, s))
			c.bound[v.Name] = &Val{S: s, L: []string{q}}
			vars = append(vars, q)
		}
	}
	body := x.evalSpec(c, n.A[0]).L[0]
	var pat []string
	if len(n.Pat) > 0 {
		for _, ps := range n.Pat {
			var ts []string
			for _, p := range ps {
				v := x.evalSpec(c, p)
				if v.Ref != "" {
					ts = append(ts, v.Ref)
				} else {
					t := v.L[0]
					{
						if i := strings.LastIndex(t, ") (select (select "); i > 0 && strings.HasPrefix(t, "(and (not (= ") {
							t = strings.TrimSuffix(t[i+2:], ")") // has(m, k): the membership term
						}
					}
					ts = append(ts, t)
				}
			}
			pat = append(pat, strings.Join(ts, " "))
		}
	} else {
		pat = autoPatterns(vars, pats)
	}
	if ctx.pats != nil {
		*ctx.pats = append(*ctx.pats, pats...)
	}
	var text string
	if n.Op == "forall" {
		text = imp(and(rng...), body)
	} else {
		text = and(append(rng, body)...)
	}
	if len(pat) > 0 && n.Op == "forall" {
		text = fmt.Sprintf("(! %s :pattern (%s))", text, strings.Join(pat, ") :pattern ("))
	}
	return boolV(fmt.Sprintf("(%s (%s) %s)", n.Op, strings.Join(decl, " "), text))
}

func (x *Exec) ctxPkg(ctx *SpecCtx) *types.Package {
	if ctx.pkg != nil {
		return ctx.pkg
	}
	if ctx.fr != nil {
		return x.e.fnPkg(ctx.fr.fn)
	}
	if x.fn != nil {
		return x.e.fnPkg(x.fn)
	}
	return nil
}

func hasSym(t, s string) bool {
	for i := 0; ; {
		j := strings.Index(t[i:], s)
		if j < 0 {
			return false
		}
		k := i + j + len(s)
		if k == len(t) || t[k] == ' ' || t[k] == ')' {
			if i+j == 0 || t[i+j-1] == ' ' || t[i+j-1] == '(' {
				return true
			}
		}
		i = k
	}
}

// autoPatterns chooses triggers: terms in which a bound variable is used directly as an index or argument.
func autoPatterns(vars []string, cands []string) []string {
	good := func(t string) bool {
		// no interpreted arithmetic or logic around the bound variables
		return !strings.Contains(t, "(+ ") && !strings.Contains(t, "(- ") && !strings.Contains(t, "(ite ") && !strings.Contains(t, "(and ") && !strings.Contains(t, "(= ")
	}
	uniq := map[string]bool{}
	var cs []string
	for _, c := range cands {
		if good(c) && !uniq[c] {
			ok := true
			// no foreign bound variables
			for _, w := range strings.FieldsFunc(c, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
				if strings.HasPrefix(w, "q!") {
					f := false
					for _, v := range vars {
						if v == w {
							f = true
						}
					}
					ok = ok && f
				}
			}
			if ok {
				uniq[c] = true
				cs = append(cs, c)
			}
		}
	}
	var out []string
	for _, c := range cs {
		all := true
		for _, v := range vars {
			if !hasSym(c, v) {
				all = false
			}
		}
		if all {
			out = append(out, c)
		}
	}
	// drop candidates that contain another candidate
	if len(out) > 0 {
		var o []string
		for _, c := range out {
			sup := false
			for _, d := range out {
				if c != d && strings.Contains(c, d) {
					sup = true
				}
			}
			if !sup {
				o = append(o, c)
			}
		}
		if len(o) > 4 {
			o = o[:4]
		}
		return o
	}
	// one candidate per variable
	per := make([][]string, len(vars))
	for i, v := range vars {
		for _, c := range cs {
			if hasSym(c, v) {
				sup := false
				for _, d := range per[i] {
					if strings.Contains(c, d) {
						sup = true
					}
				}
				if !sup && len(per[i]) < 2 {
					per[i] = append(per[i], c)
				}
			}
		}
		if len(per[i]) == 0 {
			return nil
		}
	}
	combos := []string{""}
	for i := range per {
		var nx []string
		for _, a := range combos {
			for _, b := range per[i] {
				if strings.Contains(a, b) {
					nx = append(nx, a)
				} else {
					nx = append(nx, strings.TrimSpace(a+" "+b))
				}
			}
		}
		combos = nx
	}
	if len(combos) > 4 {
		combos = combos[:4]
	}
	return combos
}

func (x *Exec) constOf(c *types.Const) *Val {
	v := &Val{T: c.Type()}
	switch c.Val().Kind() {
	case constant.Int:
		v.L = []string{intLit(c.Val().ExactString())}
	case constant.String:
		v.L = []string{x.strConst(constant.StringVal(c.Val()))}
	case constant.Bool:
		v.L = []string{fmt.Sprint(constant.BoolVal(c.Val()))}
	default:
		v.L = []string{x.fltConst(c.Val().ExactString())}
	}
	return v
}

func (x *Exec) lookup(ctx *SpecCtx, name string) *Val {
	v := x.tryLookup(ctx, name)
	if v == nil && ctx.phis != nil && ctx.block != nil && len(name) == 1 {
		// The index of a range loop that does not name it, or the only counter of a loop of an inlined function.
		var one *Val
		n := 0
		for _, in := range ctx.block.Instrs {
			if p, ok := in.(*ssa.Phi); ok && p.Comment != "rangeindex" && isIntT(p.Type()) {
				n++
				one = ctx.phis[p]
			}
		}
		if n == 1 && one != nil && ctx.fr != nil && ctx.fr.parent != nil {
			return one
		}
		for _, in := range ctx.block.Instrs {
			if p, ok := in.(*ssa.Phi); ok && p.Comment == "rangeindex" {
				if pv, ok := ctx.phis[p]; ok {
					return &Val{T: p.Type(), L: []string{plus(pv.L[0], "1")}}
				}
			}
		}
	}
	if v == nil {
		ctx.fail("unknown name %s", name)
	}
	return v
}

func (x *Exec) tryLookup(ctx *SpecCtx, name string) *Val {
	switch name {
	case "true", "false":
		return boolV(name)
	case "nil":
		return &Val{S: "nil", L: []string{"nil"}}
	}
	if v, ok := ctx.bound[name]; ok {
		return v
	}
	if ctx.results != nil {
		if name == "result" && len(ctx.results) > 0 {
			return ctx.results[0]
		}
		for i := range ctx.results {
			if name == fmt.Sprintf("result%d", i) || ctx.resNames != nil && ctx.resNames.At(i).Name() == name {
				return ctx.results[i]
			}
		}
	}
	if ctx.inOld {
		if v := x.paramLookup(ctx, name); v != nil {
			return v
		}
	}
	if v, ok := ctx.names[name]; ok {
		return v
	}
	if ctx.fr != nil {
		up := -1
		if ctx.atExit {
			up = ctx.upto
		}
		if v := x.local(ctx, ctx.fr, ctx.block, up, name); v != nil {
			return v
		}
	}
	if v, ok := x.ghostVals[name]; ok {
		return v
	}
	if v := x.paramLookup(ctx, name); v != nil {
		return v
	}
	if c := x.e.lookupConst(name, x.ctxPkg(ctx)); c != nil {
		return x.constOf(c)
	}
	if d := x.e.db.Fns[name]; d != nil && len(d.Params) == 0 {
		return x.applyFn(ctx, d, nil)
	}
	return nil
}

func (x *Exec) paramLookup(ctx *SpecCtx, name string) *Val {
	if ctx.names != nil {
		return ctx.names[name]
	}
	return x.entryVals[name]
}

// local finds the value of a local variable at a program point.
func (x *Exec) local(ctx *SpecCtx, fr *Frame, b *ssa.BasicBlock, upto int, name string) *Val {
	if b != nil {
		if ctx.phis != nil && fr == ctx.fr {
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if p.Comment == name {
					if v, ok := ctx.phis[p]; ok {
						return v
					}
				}
				if p.Comment == "rangeindex" {
					if inc, v := rangeVar(b, p, name); inc {
						if pv, ok := ctx.phis[p]; ok {
							return &Val{T: v.Type(), L: []string{plus(pv.L[0], "1")}}
						}
					}
				}
			}
		}
		first := true
		for d := b; d != nil; d = d.Idom() {
			n := len(d.Instrs)
			if first {
				n = upto
				if upto < 0 {
					n = 0
				}
				first = false
			}
			for i := n - 1; i >= 0; i-- {
				switch in := d.Instrs[i].(type) {
				case *ssa.DebugRef:
					id, ok := in.Expr.(*ast.Ident)
					if !ok || id.Name != name {
						continue
					}
					if v := x.dbg(ctx, fr, in.X, in.IsAddr); v != nil {
						return v
					}
				case *ssa.Phi:
					if in.Comment == name {
						if v, ok := fr.vals[in]; ok {
							return v
						}
					}
				case *ssa.Alloc:
					if in.Comment == name {
						if v := x.dbg(ctx, fr, in, true); v != nil {
							return v
						}
					}
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return fr.vals[p]
		}
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			return x.dbg(ctx, fr, p, true)
		}
	}
	if fr.parent != nil {
		return x.local(ctx, fr.parent, fr.parent.cur, fr.parent.curIdx, name)
	}
	return nil
}

// rangeVar: is name the index variable of the range loop with this phi?
func rangeVar(b *ssa.BasicBlock, p *ssa.Phi, name string) (bool, ssa.Value) {
	for _, u := range *p.Referrers() {
		bo, ok := u.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			continue
		}
		for _, d := range *bo.Referrers() {
			if dr, ok := d.(*ssa.DebugRef); ok {
				if id, ok := dr.Expr.(*ast.Ident); ok && id.Name == name {
					return true, bo
				}
			}
		}
	}
	return false, nil
}

func (x *Exec) dbg(ctx *SpecCtx, fr *Frame, v ssa.Value, isAddr bool) *Val {
	var r *Val
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global:
		r = x.val(fr, v)
	default:
		var ok bool
		r, ok = fr.vals[v]
		if !ok {
			return nil
		}
	}
	if !isAddr {
		return r
	}
	t := v.Type().Underlying().(*types.Pointer).Elem()
	if r.LV == nil && x.e.isStruct(t) {
		return &Val{T: t, Ref: r.L[0]}
	}
	if _, isArr := t.Underlying().(*types.Array); isArr {
		return nil
	}
	return x.load(ctx.st, r, t)
}

func (x *Exec) evalCall(ctx *SpecCtx, n *Node) *Val {
	arg := func(i int) *Val { return x.mat(ctx, x.evalSpec(ctx, n.A[i])) }
	switch n.S {
	case "old":
		c := ctx.copy()
		c.st = ctx.old
		c.inOld = true
		v := x.mat(c, x.evalSpec(c, n.A[0]))
		w := *v
		if w.St == nil {
			w.St = ctx.old
		}
		return &w
	case "pre":
		if ctx.loop == nil {
			ctx.fail("pre outside a loop")
		}
		c := ctx.copy()
		c.st = ctx.loop.stE
		c.phis = ctx.loop.entryP
		v := x.mat(c, x.evalSpec(c, n.A[0]))
		w := *v
		if w.St == nil {
			w.St = ctx.loop.stE
		}
		return &w
	case "head": // values and memory at the start of the current iteration
		if ctx.loop == nil {
			ctx.fail("head outside a loop")
		}
		c := ctx.copy()
		if ctx.loop.stH != nil {
			c.st = ctx.loop.stH
			c.phis = ctx.loop.phis
		}
		v := x.mat(c, x.evalSpec(c, n.A[0]))
		w := *v
		if w.St == nil {
			w.St = c.st
		}
		return &w
	case "now": // forget the memory state a value was read in
		v := *x.evalSpec(ctx, n.A[0])
		v.St = nil
		return &v
	case "len":
		v := arg(0)
		if v.S == "" {
			if _, ok := v.T.Underlying().(*types.Slice); ok {
				return intV(v.L[2])
			}
		}
		return intV(fmt.Sprintf("(strlen %s)", v.L[0]))
	case "cap":
		return intV(arg(0).L[3])
	case "arr":
		return intV(arg(0).L[0])
	case "off":
		return intV(arg(0).L[1])
	case "has":
		m, k := arg(0), arg(1)
		d := fmt.Sprintf("(select (select %s %s) %s)", x.get(x.stFor(ctx, m), x.e.domMap(m.T)), m.L[0], k.L[0])
		ctx.addPat(d)
		return boolV(and(not(eq(m.L[0], "0")), d))
	case "visited":
		k := arg(0)
		it := x.visitedMap(ctx)
		t := fmt.Sprintf("(select %s %s)", x.get(ctx.st, it), k.L[0])
		ctx.addPat(t)
		return boolV(t)
	case "addr": // pointer to a struct
		v := x.evalSpec(ctx, n.A[0])
		if v.Ref == "" {
			ctx.fail("addr of a value")
		}
		return &Val{T: types.NewPointer(v.T), L: []string{v.Ref}, St: v.St}
	case "root":
		v := arg(0)
		return intV(fmt.Sprintf("(root %s)", v.L[0]))
	case "own":
		v := arg(0)
		return &Val{T: v.T, L: []string{fmt.Sprintf("(own %s)", v.L[0])}}
	case "allocated":
		v := x.evalSpec(ctx, n.A[0])
		return boolV(x.allocTerm(v, ctx.st.cnt))
	case "valid": // a well-formed value of its type: allocated, with len <= cap
		v := x.mat(ctx, x.evalSpec(ctx, n.A[0]))
		return boolV(and(x.valid(ctx.st, v)...))
	case "isfresh": // did not exist at entry
		v := x.evalSpec(ctx, n.A[0])
		return boolV(not(x.allocTerm(v, ctx.old.cnt)))
	case "freshiter": // did not exist at loop entry
		v := x.evalSpec(ctx, n.A[0])
		return boolV(not(x.allocTerm(v, ctx.loop.stE.cnt)))
	case "is":
		v := arg(0)
		t, _ := x.e.specType(typeArg(n.A[1]), x.ctxPkg(ctx))
		return boolV(fmt.Sprintf("(= (tagof %s) %d)", v.L[0], x.e.typeID(t)))
	case "as":
		v := arg(0)
		t, _ := x.e.specType(typeArg(n.A[1]), x.ctxPkg(ctx))
		return x.unbox(t, v.L[0])
	case "fold":
		v := arg(0)
		ctx.addPat(fmt.Sprintf("(fold %s)", v.L[0]))
		return &Val{T: v.T, L: []string{fmt.Sprintf("(fold %s)", v.L[0])}}
	case "lower":
		return &Val{T: types.Typ[types.String], L: []string{fmt.Sprintf("(lower %s)", arg(0).L[0])}}
	case "itoa":
		return &Val{T: types.Typ[types.String], L: []string{fmt.Sprintf("(itoa %s)", arg(0).L[0])}}
	case "same": // all leaves of two values are equal
		a, b := arg(0), arg(1)
		var cs []string
		for i := range a.L {
			cs = append(cs, eq(a.L[i], b.L[i]))
		}
		return boolV(and(cs...))
	case "samemaps": // the listed maps are unchanged since entry: samemaps(T.F, ...)
		var cs []string
		for _, a := range n.A {
			for _, m := range x.mapNames(ctx, a) {
				cs = append(cs, eq(x.get(ctx.st, m), x.get(ctx.old, m)))
			}
		}
		return boolV(and(cs...))
	case "unfold":
		c := ctx.copy()
		c.noUnfold = false
		return x.evalSpec(c, n.A[0])
	}
	if d := x.e.db.Fns[n.S]; d != nil {
		var args []*Val
		for _, a := range n.A {
			args = append(args, x.evalSpec(ctx, a))
		}
		return x.applyFn(ctx, d, args)
	}
	ctx.fail("unknown function %s", n.S)
	return nil
}

func typeArg(n *Node) string {
	switch n.Op {
	case "id":
		return n.S
	case "str":
		return n.S
	case "sel":
		return n.A[0].S + "." + n.S
	}
	panic(fmt.Errorf("bad type argument"))
}

func (x *Exec) allocTerm(v *Val, cnt string) string {
	if v.Ref != "" {
		return fmt.Sprintf("(< (root %s) %s)", v.Ref, cnt)
	}
	switch v.T.Underlying().(type) {
	case *types.Pointer:
		return fmt.Sprintf("(< (root %s) %s)", v.L[0], cnt)
	}
	return fmt.Sprintf("(< %s %s)", v.L[0], cnt)
}

func (x *Exec) visitedMap(ctx *SpecCtx) string {
	if ctx.loop != nil {
		for _, in := range ctx.loop.head.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := ctx.fr.iters[nx.Iter]; ok {
					return it
				}
			}
		}
	}
	ctx.fail("visited outside a range loop over a map")
	return ""
}

// mapNames: memory maps named T.F, T (all fields), or elem type.
func (x *Exec) mapNames(ctx *SpecCtx, n *Node) []string {
	if n.Op == "sel" && n.A[0].Op == "id" {
		if t := x.tryType(ctx, n.A[0].S); t != nil {
			if u, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == n.S {
						ft := u.Field(i).Type()
						if x.e.isStruct(ft) {
							return x.e.mapsOf(ft)
						}
						var out []string
						for _, l := range x.e.leaves(ft) {
							out = append(out, x.e.fieldMap(t, i, l))
						}
						return out
					}
				}
			}
			if m, _ := x.e.ghostMap(t, n.S); m != "" {
				return []string{m}
			}
			ctx.fail("no field %s", n.S)
		}
	}
	if n.Op == "str" || n.Op == "id" {
		t, _ := x.e.specType(n.S, x.ctxPkg(ctx))
		if _, ok := t.Underlying().(*types.Map); ok {
			out := map[string]bool{}
			x.e.addMap(t, out)
			return sortedKeys(out)
		}
		return x.e.mapsOf(t)
	}
	ctx.fail("bad map name")
	return nil
}

func (x *Exec) tryType(ctx *SpecCtx, s string) (t types.Type) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	t, _ = x.e.specType(s, x.ctxPkg(ctx))
	return t
}

// ---------------------------------------------------------------- specification functions

func (e *Eng) fnMaps(d *FnDef) []string {
	if d.done || d.Body == nil {
		return d.maps
	}
	if d.busy {
		return nil
	}
	d.busy = true
	rec := map[string]bool{}
	for round := 0; round < 2; round++ {
		x := e.newExec("fn " + d.Name)
		x.termMode = true
		st := &State{maps: map[string]string{}, cnt: "cnt0", rec: rec}
		st.maps = map[string]string{}
		names := map[string]*Val{}
		for _, p := range d.Params {
			names[p.Name] = x.dummy(p, "dummy."+p.Name)
		}
		x.entry = st
		c := &SpecCtx{x: x, st: st, old: st, names: names, noUnfold: true}
		x.evalSpec(c, d.Body)
		d.maps = sortedKeys(rec)
	}
	d.done, d.busy = true, false
	return d.maps
}

func (x *Exec) dummy(p Param, pre string) *Val {
	t, s := x.e.specType(p.Type, nil)
	if t == nil {
		return &Val{S: s, L: []string{pre}}
	}
	v := &Val{T: t}
	for i := range x.e.leaves(t) {
		v.L = append(v.L, fmt.Sprintf("%s.%d", pre, i))
	}
	return v
}

func (x *Exec) applyFn(ctx *SpecCtx, d *FnDef, args []*Val) *Val {
	if len(args) != len(d.Params) {
		ctx.fail("%s takes %d arguments", d.Name, len(d.Params))
	}
	st := ctx.st
	var leaves []string
	var sorts []string
	names := map[string]*Val{}
	var stArg *State
	inline := d.Body != nil && !recursiveFn(x.e, d)
	for i, p := range d.Params {
		t, s := x.e.specType(p.Type, nil)
		a := args[i]
		if t != nil {
			if _, ptr := t.Underlying().(*types.Pointer); ptr && a.Ref != "" {
				a = &Val{T: t, L: []string{a.Ref}, St: a.St}
			}
			if a.S == "nil" {
				a = x.zero(t)
			}
		}
		if a.St != nil && !inline && a.T != nil {
			if _, basic := a.T.Underlying().(*types.Basic); !basic {
				if stArg != nil && stArg != a.St {
					ctx.fail("the arguments of %s refer to different memory states", d.Name)
				}
				stArg = a.St
				st = a.St
			}
		}
		ast := a.St
		a = x.mat(ctx, a)
		leaves = append(leaves, a.L...)
		b := *a
		b.St = nil
		if inline {
			b.St = ast
		}
		if t != nil {
			b.T = t
			b.S = ""
			for _, l := range x.e.leaves(t) {
				sorts = append(sorts, l.sort)
			}
		} else {
			sorts = append(sorts, s)
		}
		if len(leaves) != len(sorts) {
			ctx.fail("argument %s of %s has the wrong type", p.Name, d.Name)
		}
		names[p.Name] = &b
	}
	rt, rs := x.e.specType(d.Ret, nil)
	mk := func(t string) *Val {
		if rt != nil {
			if len(x.e.leaves(rt)) != 1 {
				ctx.fail("%s returns a compound value", d.Name)
			}
			return &Val{T: rt, L: []string{t}}
		}
		return &Val{S: rs, L: []string{t}}
	}
	if d.Body == nil {
		if len(leaves) == 0 {
			return mk(d.SMT)
		}
		t := "(" + d.SMT + " " + strings.Join(leaves, " ") + ")"
		ctx.addPat(t)
		return mk(t)
	}
	if inline {
		// a definition: replaced by its body
		c := &SpecCtx{x: x, st: st, old: ctx.old, names: names, pkg: ctx.pkg, noUnfold: ctx.noUnfold, pats: ctx.pats, loop: ctx.loop}
		return x.mat(c, x.evalSpec(c, d.Body))
	}
	var mt, ms []string
	if d.busy {
		t := "(" + strings.Join(append([]string{"fn." + d.Name}, leaves...), " ") + ")"
		return mk(t)
	}
	for _, m := range x.e.fnMaps(d) {
		mt = append(mt, x.get(st, m))
		ms = append(ms, x.e.mapSort[m])
	}
	f := sym("fn." + d.Name)
	if !x.declared[f] {
		x.declared[f] = true
		r := rs
		if rt != nil {
			r = x.e.leaves(rt)[0].sort
		}
		x.emitFront(fmt.Sprintf("(declare-fun %s (%s) %s)", f, strings.Join(append(ms, sorts...), " "), r))
	}
	t := f
	if len(mt)+len(leaves) > 0 {
		t = "(" + strings.Join(append(append([]string{f}, mt...), leaves...), " ") + ")"
	}
	ctx.addPat(t)
	if !ctx.noUnfold && !boundVar(t) && !x.unf[t] && !x.termMode {
		x.unf[t] = true
		c := &SpecCtx{x: x, st: st, old: st, names: names, noUnfold: true}
		b := x.evalSpec(c, d.Body)
		tag := x.tag
		x.tag = "unfold " + t
		x.assume(eq(t, b.L[0]), "")
		x.tag = tag
	}
	return mk(t)
}

// boundVar: the term contains a quantified variable.
func boundVar(t string) bool {
	for i := 0; ; {
		k := strings.Index(t[i:], "q!")
		if k < 0 {
			return false
		}
		i += k
		if i == 0 || t[i-1] == ' ' || t[i-1] == '(' {
			return true
		}
		i += 2
	}
}

var recCache = map[string]bool{}

func recursiveFn(e *Eng, d *FnDef) bool {
	if v, ok := recCache[d.Name]; ok {
		return v
	}
	seen := map[string]bool{}
	found := false
	var rec func(n *Node)
	rec = func(n *Node) {
		if n == nil {
			return
		}
		if n.Op == "call" {
			if n.S == d.Name {
				found = true
			}
			if f := e.db.Fns[n.S]; f != nil && !seen[n.S] {
				seen[n.S] = true
				rec(f.Body)
			}
		}
		for _, a := range n.A {
			rec(a)
		}
		for _, v := range n.Vars {
			rec(v.Lo)
			rec(v.Hi)
		}
	}
	rec(d.Body)
	recCache[d.Name] = found
	return found
}

// ---------------------------------------------------------------- modifies clauses and frames

func (x *Exec) modEntries(cls []Clause, ctx *SpecCtx) []ModEntry {
	var out []ModEntry
	for _, c := range cls {
		out = append(out, x.modEntry(c.E, ctx)...)
	}
	return out
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func (x *Exec) modEntry(n *Node, ctx *SpecCtx) []ModEntry {
	switch {
	case n.Op == "call" && n.S == "heap": // heap(T) or heap(T.F): anywhere
		var ms []string
		for _, a := range n.A {
			ms = append(ms, x.mapNames(ctx, a)...)
		}
		return []ModEntry{{setOf(ms), func(q string) string { return "true" }}}
	case n.Op == "call" && n.S == "content": // content of a Go map
		m := x.mat(ctx, x.evalSpec(ctx, n.A[0]))
		ms := map[string]bool{}
		x.e.addMap(m.T, ms)
		// nothing can be written in a nil map
		return []ModEntry{{ms, func(q string) string { return fmt.Sprintf("(and (= %s %s) (not (= %s 0)))", q, m.L[0], q) }}}
	case n.Op == "call" && n.S == "contents": // content of any map of the type
		m := x.mat(ctx, x.evalSpec(ctx, n.A[0]))
		ms := map[string]bool{}
		x.e.addMap(m.T, ms)
		return []ModEntry{{ms, func(q string) string { return "true" }}}
	case n.Op == "call" && (n.S == "elems" || n.S == "elemsOf"), n.Op == "sel" && selRoot(n).Op == "call" && selRoot(n).S == "elems":
		call := selRoot(n)
		s := x.mat(ctx, x.evalSpec(ctx, call.A[0]))
		et := s.T.Underlying().(*types.Slice).Elem()
		var cells [][2]string // map, place in the element
		var sels []string     // elems(s).A.B
		for m := n; m.Op == "sel" && n.S != "*"; m = m.A[0] {
			sels = append([]string{m.S}, sels...)
		}
		ft, ref := et, "X"
		x.e.eachCell(et, ref, func(m, r string, _ int, _ Leaf) { cells = append(cells, [2]string{m, r}) })
		for _, name := range sels {
			t := ft
			u := t.Underlying().(*types.Struct)
			cells, ft = nil, nil
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					ft = u.Field(i).Type()
					if x.e.isStruct(ft) {
						ref = fmt.Sprintf("(fld %s %d)", ref, x.e.tag(t, i))
						x.e.eachCell(ft, ref, func(m, r string, _ int, _ Leaf) { cells = append(cells, [2]string{m, r}) })
					} else {
						for _, l := range x.e.leaves(ft) {
							cells = append(cells, [2]string{x.e.fieldMap(t, i, l), ref})
						}
					}
				}
			}
			if ft == nil {
				ctx.fail("no field %s", name)
			}
		}
		a, o, l := s.L[0], s.L[1], s.L[2]
		if n.S == "*" && n.Op == "sel" { // up to the capacity
			l = s.L[3]
		}
		return placeEntries(cells, func(q string) string {
			return fmt.Sprintf("(= (earr (own %s)) %s) (<= %s (eidx (own %s))) (< (eidx (own %s)) (+ %s %s))", q, a, o, q, q, o, l)
		})
	case n.Op == "call" && n.S == "elemsof": // elements of any slice of the type
		t, _ := x.e.specType(n.A[0].S, x.ctxPkg(ctx))
		var cells [][2]string
		x.e.eachCell(t, "X", func(m, r string, _ int, _ Leaf) { cells = append(cells, [2]string{m, r}) })
		return placeEntries(cells, func(q string) string { return "true" })
	case n.Op == "call" && n.S == "tree": // everything owned by the object of a pointer: its fields, including nested structs
		v := x.evalSpec(ctx, n.A[0])
		ref := v.Ref
		t := v.T
		if ref == "" {
			ref = v.L[0]
			t = v.T.Underlying().(*types.Pointer).Elem()
		}
		return x.refEntries(t, ref)
	case n.Op == "sel":
		base := x.evalSpec(ctx, n.A[0])
		ref, t := base.Ref, base.T
		if ref == "" {
			ref = base.L[0]
			t = base.T.Underlying().(*types.Pointer).Elem()
		}
		if n.S == "*" {
			return x.refEntries(t, ref)
		}
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() != n.S {
				continue
			}
			ft := u.Field(i).Type()
			if x.e.isStruct(ft) {
				return x.refEntries(ft, fmt.Sprintf("(fld %s %d)", ref, x.e.tag(t, i)))
			}
			var ms []string
			for _, l := range x.e.leaves(ft) {
				ms = append(ms, x.e.fieldMap(t, i, l))
			}
			return []ModEntry{{setOf(ms), func(q string) string { return eq(q, ref) }}}
		}
	}
	ctx.fail("bad modifies clause")
	return nil
}

// placeEntries: the cells (map, place in the element) of the elements in a window. The cells of one field of the
// elements end with the tag of that field.
func placeEntries(cells [][2]string, win func(q string) string) []ModEntry {
	at := map[string]map[string]bool{}
	var order []string
	for _, c := range cells {
		tag := ""
		if k := strings.LastIndexByte(c[1], ' '); k >= 0 {
			tag = strings.TrimSuffix(c[1][k+1:], ")")
		}
		if at[tag] == nil {
			at[tag] = map[string]bool{}
			order = append(order, tag)
		}
		at[tag][c[0]] = true
	}
	var out []ModEntry
	for _, tag := range order {
		tag := tag
		out = append(out, ModEntry{at[tag], func(q string) string {
			return fmt.Sprintf("(and %s %s)", elemPlace(q, tag), win(q))
		}})
	}
	return out
}

// selRoot: what a chain of field selections starts from
func selRoot(n *Node) *Node {
	for n.Op == "sel" {
		n = n.A[0]
	}
	return n
}

func (x *Exec) refEntries(t types.Type, ref string) []ModEntry {
	var out []ModEntry
	x.e.eachCell(t, ref, func(m, r string, _ int, _ Leaf) {
		out = append(out, ModEntry{map[string]bool{m: true}, func(q string) string { return eq(q, r) }})
	})
	return out
}

// ghostClear: the ghost fields a contract clears at the entry.
func (x *Exec) ghostClear(con *Contract, ctx *SpecCtx, st *State) {
	x.clearFields(con.Clears, ctx, st)
}

func (x *Exec) clearFields(fields []string, ctx *SpecCtx, st *State) {
	for _, c := range fields {
		for _, m := range x.mapNames(ctx, parseExpr(c)) {
			z := "false"
			if strings.HasSuffix(x.e.mapSort[m], "Int)") {
				z = "0"
			}
			st.maps[m] = fmt.Sprintf("((as const %s) %s)", x.e.mapSort[m], z)
		}
	}
}

// ghostSet: the ghost assignments at the exit.
func (x *Exec) ghostSet(sets [][2]*Node, ctx *SpecCtx, st *State) {
	for _, n := range []string{"sortperm", "sortinv"} { // no call on this path
		if x.ghostVals[n] == nil && !x.termMode {
			x.ghostVals[n] = &Val{S: "(Array Int Int)", L: []string{x.declare("ghost."+n, "(Array Int Int)")}}
			defer delete(x.ghostVals, n)
		}
	}
	for _, s := range sets {
		if s[0].Op != "sel" {
			ctx.fail("set of something else than a ghost field")
		}
		b := x.evalSpec(ctx, s[0].A[0])
		ref, t := b.Ref, b.T
		if p, ok := t.Underlying().(*types.Pointer); ok {
			ref, t = b.L[0], p.Elem()
		}
		m, _ := x.e.ghostMap(t, s[0].S)
		if m == "" || ref == "" {
			ctx.fail("set of something else than a ghost field")
		}
		v := x.evalSpec(ctx, s[1]).L[0]
		st.maps[m] = x.def("g."+m, x.e.mapSort[m], fmt.Sprintf("(store %s %s %s)", x.get(st, m), ref, v))
	}
}

// ghostWrites: the ghost fields a function assigns.
func (e *Eng) ghostWrites(f *ssa.Function, out map[string]bool) {
	for n, g := range e.fnByName {
		if g != f {
			continue
		}
		con := e.db.C[n]
		if con == nil || len(con.Sets)+len(con.Clears)+len(con.Enters) == 0 && !con.LoopClears {
			continue
		}
		x := e.newExec("ghost")
		x.termMode = true
		ctx := &SpecCtx{x: x, pkg: e.fnPkg(f)}
		for _, c := range con.Modifies {
			if c.E.Op == "call" && c.E.S == "heap" {
				for _, a := range c.E.A {
					for _, m := range x.mapNames(ctx, a) {
						if strings.Contains(m, ".$") {
							out[m] = true
						}
					}
				}
			}
		}
	}
}

// frameFormula: cells of m outside the entries that exist before keep their value.
func (x *Exec) frameFormula(m, now, was, cnt string, entries []ModEntry, q string) string {
	if now == was {
		return "true"
	}
	b := x.frameBody(m, now, was, cnt, entries, q)
	if b == "true" {
		return "true"
	}
	s := "Ref"
	if strings.HasPrefix(x.e.mapSort[m], "(Array Int") {
		s = "Int"
	}
	return fmt.Sprintf("(forall ((%s %s)) (! %s :pattern ((select %s %s))))", q, s, b, now, q)
}

func (x *Exec) frameBody(m, now, was, cnt string, entries []ModEntry, q string) string {
	var ex []string
	for _, e := range entries {
		if e.maps[m] {
			p := e.pred(q)
			if p == "true" {
				return "true"
			}
			ex = append(ex, not(p))
		}
	}
	id := "(root " + q + ")"
	if strings.HasPrefix(x.e.mapSort[m], "(Array Int") {
		id = q
	}
	ex = append([]string{fmt.Sprintf("(< %s %s)", id, cnt)}, ex...)
	return imp(and(ex...), fmt.Sprintf("(= (select %s %s) (select %s %s))", now, q, was, q))
}

func (x *Exec) checkFrame(mods []string, st, old *State, entries []ModEntry, guard, name string, props []string) {
	for _, m := range mods {
		if strings.HasPrefix(m, "IT.") {
			continue
		}
		now, was := x.get(st, m), x.get(old, m)
		if now == was || old == x.entry && x.framed[now] {
			continue // nothing was written since, or only by steps that keep the frame
		}
		s := "Ref"
		if strings.HasPrefix(x.e.mapSort[m], "(Array Int") {
			s = "Int"
		}
		q := x.declare("sk", s)
		g := x.frameBody(m, now, was, old.cnt, entries, q)
		x.oblige("frame", name+"/"+m, guard, g, token.NoPos, props)
	}
}

// ---------------------------------------------------------------- type invariants

func (x *Exec) tinvMaps(ti TypeInv) (maps []string, f func(st *State) string) {
	t, _ := x.e.specType(ti.Type, nil)
	p := types.NewPointer(t)
	rec := map[string]bool{}
	y := x.e.newExec("typeinv")
	y.termMode = true
	st := &State{maps: map[string]string{}, rec: rec}
	y.entry = st
	y.evalSpec(&SpecCtx{x: y, st: st, old: st, names: map[string]*Val{ti.Var: {T: p, L: []string{"q!t"}}}, noUnfold: true}, ti.C.E)
	maps = sortedKeys(rec)
	return maps, func(st *State) string {
		var pats []string
		b := x.evalSpec(&SpecCtx{x: x, st: st, old: st, names: map[string]*Val{ti.Var: {T: p, L: []string{"q!t"}}}, noUnfold: true, pats: &pats}, ti.C.E).L[0]
		pt := autoPatterns([]string{"q!t"}, pats)
		return fmt.Sprintf("(forall ((q!t Ref)) (! %s :pattern (%s)))", b, strings.Join(pt, ") :pattern ("))
	}
}

func (x *Exec) tinvKey(maps []string, st *State, name string) string {
	k := name
	for _, m := range maps {
		k += " " + x.get(st, m)
	}
	return k
}

func (x *Exec) assumeTInv(st *State, guard string) {
	for _, ti := range x.e.db.TInv {
		maps, f := x.tinvMaps(ti)
		k := x.tinvKey(maps, st, ti.C.Name)
		if x.tinvOK[k] {
			continue
		}
		x.tinvOK[k] = true
		key := ""
		if len(maps) > 0 {
			key = x.get(st, maps[0])
		}
		_ = key
		x.assume(f(st), "")
	}
}

func (x *Exec) checkTInv(st *State, guard, name string) {
	for _, ti := range x.e.db.TInv {
		maps, _ := x.tinvMaps(ti)
		k := x.tinvKey(maps, st, ti.C.Name)
		if x.tinvOK[k] {
			continue
		}
		t, _ := x.e.specType(ti.Type, nil)
		q := x.declare("ti", "Ref")
		b := x.evalSpec(&SpecCtx{x: x, st: st, old: st, names: map[string]*Val{ti.Var: {T: types.NewPointer(t), L: []string{q}}}, noUnfold: true}, ti.C.E).L[0]
		x.oblige("typeinv", name+"/"+ti.C.Name, guard, b, token.NoPos, ti.C.Props)
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}
