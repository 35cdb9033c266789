package main

// Generation of proof obligations from SSA: one acyclic encoding per function,
// loops cut at their headers, callees replaced by their contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }

func (u unsup) Error() string    { return u.msg }
func unsupported(s string) unsup { return unsup{"outside the supported subset: " + s} }

type item struct {
	kind byte // 'd' definition/declaration, 'a' assumption, 'o' obligation (assumed afterwards)
	sym  string
	text string
	key  string
	ob   *Oblig
	ws   []string
	tag  string // the clause of the contract it comes from
}

type Oblig struct {
	Name   string
	Kind   string
	Fn     string
	Guard  string
	Goal   string
	Pos    string
	Props  []string
	at     int
	x      *Exec
	Status string
	By     string
	Detail string
	Secs   float64
	Vac    bool     // must be satisfiable
	Splits []string // the guard is their disjunction
	text   string
	using  []string // the first attempt uses only the assumptions from these clauses
	focus  string
}

type Eng struct {
	renamed   []string
	module    string
	prog      *ssa.Program
	fset      *token.FileSet
	pkgByName map[string]*ssa.Package
	leafCache map[types.Type][]Leaf
	tags      map[string]int
	mapSort   map[string]string
	sorts     map[string]bool
	db        *SpecDB
	writes    map[*ssa.Function]map[string]bool
	writesB   map[*ssa.Function]bool
	typeIDs   map[string]int
	fnByName  map[string]*ssa.Function
	trustUsed map[string]bool
	usedCon   map[string]bool
	prop      string // the property of this run
	scc       map[*ssa.Function]int
	propSel   string
}

func (e *Eng) needSort(s string) { e.sorts[s] = true }

func (e *Eng) typeID(t types.Type) int {
	k := typeName(t)
	if n, ok := e.typeIDs[k]; ok {
		return n
	}
	n := len(e.typeIDs) + 1
	e.typeIDs[k] = n
	return n
}

type Loop struct {
	n      int // number, in order of encounter
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	spec   *LoopSpec
	phis   map[*ssa.Phi]*Val // values at the head
	entryP map[*ssa.Phi]*Val
	stE    *State // state before the loop
	stH    *State // state at the head
	dec    []string
	mods   []string
	reach  string
	frame  []ModEntry
	back   int
}

type edge struct {
	cond string
	st   *State
}

type Frame struct {
	fn       *ssa.Function
	vals     map[ssa.Value]*Val
	parent   *Frame
	call     ssa.Instruction
	depth    int
	loops    map[*ssa.BasicBlock]*Loop
	edges    map[*ssa.BasicBlock][]edge
	iters    map[ssa.Value]string // Range instruction -> visited map
	cur      *ssa.BasicBlock
	curIdx   int
	curLoops []*Loop
}

type Exec struct {
	snaps     map[string][]*State // states at the calls of functions, for the stable clauses
	e         *Eng
	fn        *ssa.Function
	con       *Contract
	name      string
	front     []string
	frontSym  []string
	declared  map[string]bool
	items     []item
	n         int
	obs       []*Oblig
	strs      map[string]string
	strOrder  []string
	entry     *State
	entryVals map[string]*Val
	loopN     int
	top       *Frame
	unf       map[string]bool
	frame     []ModEntry
	tag       string          // the clause that is being evaluated
	using     []string        // what the obligation of the clause needs
	framed    map[string]bool // map symbols that agree with the entry of the function outside its frame
	frameAll  bool
	tinvAt    string
	names     map[string]int
	results   []*Val
	loopSeen  map[string]int
	curProps  []string
	measure   []string
	axDone    map[string]bool
	lemDone   map[string]bool
	termMode  bool
	proving   bool // an aspect proves a precondition at a call
	tinvOK    map[string]bool
	ghostVals map[string]*Val
	lemAx     []lemmaAxiom
	hintName  string
	usedLemma map[string]bool
	defI      map[string]int
	keyI      map[string][]int
	splits    map[string][]string
	frontWs   [][]string
	frontDecl map[string]bool
}

func (e *Eng) newExec(name string) *Exec {
	return &Exec{e: e, name: name, splits: map[string][]string{}, declared: map[string]bool{}, strs: map[string]string{}, unf: map[string]bool{},
		names: map[string]int{}, loopSeen: map[string]int{}, axDone: map[string]bool{}, lemDone: map[string]bool{}, tinvOK: map[string]bool{}, ghostVals: map[string]*Val{}, usedLemma: map[string]bool{}}
}

func (x *Exec) emitFront(s string) { x.front = append(x.front, s) }

func (x *Exec) fresh0(base string) string {
	x.n++
	return sym(fmt.Sprintf("%s!%d", base, x.n))
}

func (x *Exec) declare(name, sort string) string {
	x.e.sortUse(sort)
	s := x.fresh0(name)
	x.items = append(x.items, item{kind: 'd', sym: s, text: fmt.Sprintf("(declare-const %s %s)", s, sort)})
	return s
}

func (e *Eng) sortUse(s string) {
	if strings.HasPrefix(s, "O_") || s == "ArrVal" {
		e.sorts[s] = true
	}
}

func atomic(t string) bool { return !strings.HasPrefix(t, "(") }

func (x *Exec) def(name, sort, term string) string {
	if x.termMode || atomic(term) {
		return term
	}
	hasIte := sort != "Bool" && strings.Contains(term, "(ite ")
	if len(term) < 14 && !hasIte {
		return term
	}
	s := x.fresh0(name)
	if hasIte {
		// a constant: the term may end up in a pattern, where ite is not allowed
		x.items = append(x.items, item{kind: 'd', sym: s, text: fmt.Sprintf("(declare-const %s %s)\n(assert (= %s %s))", s, sort, s, term)})
		return s
	}
	x.items = append(x.items, item{kind: 'd', sym: s, text: fmt.Sprintf("(define-fun %s () %s %s)", s, sort, term)})
	return s
}

func (x *Exec) assume(t, key string) {
	if t == "true" || t == "" || x.termMode {
		return
	}
	x.items = append(x.items, item{kind: 'a', text: t, key: key, tag: x.tag})
}

func (x *Exec) uniq(n string) string {
	x.names[n]++
	if x.names[n] > 1 {
		return fmt.Sprintf("%s#%d", n, x.names[n])
	}
	return n
}

func (x *Exec) oblige(kind, name, guard, goal string, pos token.Pos, props []string) {
	if goal == "true" || x.termMode {
		return
	}
	if x.con != nil && x.con.Base != nil && kind != "post" && kind != "inv" && kind != "assert" && !x.proving {
		if !strings.HasSuffix(name, "terminates") {
			x.assume(imp(guard, goal), "") // an obligation of the base contract
		}
		return
	}
	if x.con != nil && x.con.Partial != "" && kind == "safety" && !strings.HasSuffix(name, "terminates") {
		x.e.trustUsed["freedom from panics of "+x.con.Name+" is assumed: "+x.con.Partial] = true
		x.assume(imp(guard, goal), "")
		return
	}
	o := &Oblig{Name: x.uniq(x.name + "/" + kind + ":" + name), Kind: kind, Fn: x.name, Guard: guard, Goal: goal, at: len(x.items), Props: props, x: x, Splits: x.splits[guard], using: x.using}
	if pos.IsValid() {
		p := x.e.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
	}
	x.obs = append(x.obs, o)
	x.items = append(x.items, item{kind: 'o', text: imp(guard, goal), ob: o})
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func and(l ...string) string {
	var o []string
	for _, s := range l {
		if s == "false" {
			return "false"
		}
		if s != "true" && s != "" {
			o = append(o, s)
		}
	}
	switch len(o) {
	case 0:
		return "true"
	case 1:
		return o[0]
	}
	return "(and " + strings.Join(o, " ") + ")"
}

func or(l ...string) string {
	var o []string
	for _, s := range l {
		if s == "true" {
			return "true"
		}
		if s != "false" {
			o = append(o, s)
		}
	}
	switch len(o) {
	case 0:
		return "false"
	case 1:
		return o[0]
	}
	return "(or " + strings.Join(o, " ") + ")"
}

func not(a string) string {
	switch a {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		return a[5 : len(a)-1]
	}
	return "(not " + a + ")"
}

func ite(c, a, b string) string {
	if a == b || c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func (x *Exec) strConst(s string) string {
	if n, ok := x.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d", len(x.strs))
	switch s {
	case "":
		n = "str_empty"
	case ".":
		n = "str_dot"
	}
	x.strs[s] = n
	x.strOrder = append(x.strOrder, s)
	return n
}

// ---------------------------------------------------------------- blocks

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		out = append(out, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func isBack(p, b *ssa.BasicBlock) bool { return b.Dominates(p) }

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = body
				}
				var add func(n *ssa.BasicBlock)
				add = func(n *ssa.BasicBlock) {
					if body[n] {
						return
					}
					body[n] = true
					for _, p := range n.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	return loops
}

// mergeStates joins states under their edge conditions.
func (x *Exec) mergeStates(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	out := &State{maps: map[string]string{}}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.maps {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		t := x.get(es[len(es)-1].st, k)
		same := true
		for i := len(es) - 2; i >= 0; i-- {
			u := x.get(es[i].st, k)
			if u != t {
				same = false
			}
			t = ite(es[i].cond, u, t)
		}
		if same {
			out.maps[k] = x.get(es[0].st, k)
			continue
		}
		all := true
		for _, e := range es {
			all = all && x.isFramed(k, x.get(e.st, k))
		}
		out.maps[k] = x.def("j."+k, x.e.mapSort[k], t)
		if all {
			x.setFramed(out.maps[k])
		}
	}
	t := es[len(es)-1].st.cnt
	for i := len(es) - 2; i >= 0; i-- {
		t = ite(es[i].cond, es[i].st.cnt, t)
	}
	out.cnt = x.def("cnt", "Int", t)
	return out
}

func (x *Exec) isFramed(m, s string) bool {
	return x.framed[s] || x.entry != nil && s == x.get(x.entry, m)
}

func (x *Exec) setFramed(s string) {
	if !x.termMode && atomic(s) {
		if x.framed == nil {
			x.framed = map[string]bool{}
		}
		x.framed[s] = true
	}
}

func (x *Exec) mergeVals(conds []string, vs []*Val) *Val {
	v0 := vs[len(vs)-1]
	if v0.Tup != nil {
		o := &Val{T: v0.T}
		for i := range v0.Tup {
			var l []*Val
			for _, v := range vs {
				l = append(l, v.Tup[i])
			}
			o.Tup = append(o.Tup, x.mergeVals(conds, l))
		}
		return o
	}
	o := &Val{T: v0.T, Clo: v0.Clo, LV: v0.LV}
	for _, v := range vs {
		if v.Clo != o.Clo {
			o.Clo = nil
		}
		if (v.LV == nil) != (o.LV == nil) || v.LV != nil && *v.LV != *o.LV {
			panic(unsupported("pointer to a field merged at a join"))
		}
	}
	for i := range v0.L {
		t := v0.L[i]
		for k := len(vs) - 2; k >= 0; k-- {
			t = ite(conds[k], vs[k].L[i], t)
		}
		s := x.e.leaves(v0.T)[i].sort
		o.L = append(o.L, x.def("phi", s, t))
	}
	return o
}

type retInfo struct {
	reach string
	vals  []*Val
	st    *State
}

// run executes a function body; the caller has bound parameters and free variables.
func (x *Exec) run(fr *Frame, st *State, reach string) (vals []*Val, out *State, outReach string) {
	fn := fr.fn
	if fn.Blocks == nil {
		panic(unsupported("function without body " + fn.String()))
	}
	bodies := findLoops(fn)
	fr.loops = map[*ssa.BasicBlock]*Loop{}
	fr.edges = map[*ssa.BasicBlock][]edge{}
	fr.iters = map[ssa.Value]string{}
	var rets []retInfo
	for _, b := range rpo(fn) {
		fr.cur = b
		var es []edge
		var preds []int
		if b.Index == 0 {
			es = []edge{{reach, st}}
		}
		cnt := map[*ssa.BasicBlock]int{}
		for pi, p := range b.Preds {
			if isBack(p, b) {
				continue
			}
			k := 0
			want := cnt[p]
			cnt[p]++
			for si, s := range p.Succs {
				if s == b {
					if k == want {
						if ed := fr.edges[p]; si < len(ed) {
							es = append(es, ed[si])
							preds = append(preds, pi)
						}
						break
					}
					k++
				}
			}
		}
		if len(es) == 0 {
			continue // unreachable
		}
		var conds []string
		for _, e := range es {
			conds = append(conds, e.cond)
		}
		r := x.def("r."+fn.Name(), "Bool", or(conds...))
		x.noteSplit(r, conds)
		cur := x.mergeStates(es)
		phis := map[*ssa.Phi]*Val{}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				if _, d := in.(*ssa.DebugRef); d {
					continue
				}
				break
			}
			var vs []*Val
			for _, pi := range preds {
				vs = append(vs, x.val(fr, p.Edges[pi]))
			}
			phis[p] = x.mergeVals(conds, vs)
			if phis[p].T == nil || !types.Identical(phis[p].T, p.Type()) {
				c := *phis[p]
				c.T = p.Type()
				phis[p] = &c
			}
		}
		for p, v := range phis {
			fr.vals[p] = v
		}
		if body := bodies[b]; body != nil {
			cur = x.enterLoop(fr, b, body, phis, cur, r)
		}
		fr.curLoops = nil
		for h, l := range fr.loops {
			if l.body[b] {
				fr.curLoops = append(fr.curLoops, fr.loops[h])
			}
		}
		if ri := x.block(fr, b, cur, r); ri != nil {
			rets = append(rets, *ri)
		}
	}
	if len(rets) == 0 {
		return nil, st, "false"
	}
	var es []edge
	var conds []string
	for _, r := range rets {
		es = append(es, edge{r.reach, r.st})
		conds = append(conds, r.reach)
	}
	out = x.mergeStates(es)
	for i := range rets[0].vals {
		var vs []*Val
		for _, r := range rets {
			vs = append(vs, r.vals[i])
		}
		vals = append(vals, x.mergeVals(conds, vs))
	}
	r := x.def("ret."+fn.Name(), "Bool", or(conds...))
	x.noteSplit(r, conds)
	return vals, out, r
}

// noteSplit records that r is the disjunction of conds: the ways control reaches a point.
func (x *Exec) noteSplit(r string, conds []string) {
	if x.termMode || !atomic(r) || x.splits[r] != nil {
		return
	}
	var out []string
	for _, c := range conds {
		if c == "false" {
			continue
		}
		if l := x.splits[c]; l != nil {
			out = append(out, l...)
			continue
		}
		if strings.HasPrefix(c, "(and ") {
			if i := strings.IndexByte(c[5:], ' '); i > 0 {
				if l := x.splits[c[5:5+i]]; l != nil {
					for _, s := range l {
						out = append(out, "(and "+s+c[5+i:])
					}
					continue
				}
			}
		}
		out = append(out, c)
	}
	if len(out) > 1 {
		if len(out) > 24 {
			out = conds
		}
		x.splits[r] = out
	} else if len(out) == 1 && len(conds) == 1 && x.splits[conds[0]] != nil {
		x.splits[r] = x.splits[conds[0]]
	}
}

func (x *Exec) loopSpec(n int) *LoopSpec {
	if x.con != nil && x.con.Loops[n] != nil {
		l := x.con.Loops[n]
		if x.con.Base != nil && x.con.Base.Loops[n] != nil {
			l.Modifies, l.HasMod = x.con.Base.Loops[n].Modifies, x.con.Base.Loops[n].HasMod
		}
		return l
	}
	if x.con != nil && x.con.Base != nil && x.con.Base.Loops[n] != nil {
		b := x.con.Base.Loops[n]
		return &LoopSpec{Modifies: b.Modifies, HasMod: b.HasMod}
	}
	return &LoopSpec{}
}

func (x *Exec) enterLoop(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis map[*ssa.Phi]*Val, st *State, r string) *State {
	x.loopN++
	if x.con != nil && !x.termMode {
		for _, c := range []*Contract{x.con.Base, x.con} {
			if c != nil && c.Loops[x.loopN] != nil && len(c.Loops[x.loopN].Clears) > 0 {
				st = st.clone()
				x.clearFields(c.Loops[x.loopN].Clears, &SpecCtx{x: x, st: st, old: x.entry, pkg: x.e.fnPkg(fr.fn)}, st)
			}
		}
	}
	lp := &Loop{n: x.loopN, head: b, body: body, spec: x.loopSpec(x.loopN), entryP: phis, stE: st, reach: r, phis: map[*ssa.Phi]*Val{}}
	fr.loops[b] = lp
	lname := fmt.Sprintf("loop%d", lp.n)
	mods := map[string]bool{}
	for blk := range body {
		x.e.scanBlock(fr.fn, blk, mods, x)
		for _, in := range blk.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				if it, ok := fr.iters[nx.Iter]; ok {
					mods[it] = true
				}
			}
		}
	}
	for _, s := range x.loopSets(lp.n) {
		b := x.evalSpec(x.loopCtx(fr, lp, phis, st), s[0].A[0])
		t := b.T
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if m, _ := x.e.ghostMap(t, s[0].S); m != "" {
			mods[m] = true
		}
	}
	lp.mods = sortedKeys(mods)
	if lp.spec.HasMod {
		lp.frame = x.modEntries(lp.spec.Modifies, x.loopCtx(fr, lp, phis, st))
	}
	// invariants at entry
	x.checkInv(fr, lp, phis, st, r, lname, "entry")
	// havoc
	h := st.clone()
	for _, m := range lp.mods {
		h.maps[m] = x.declare("h."+m, x.e.mapSort[m])
	}
	allocs := x.e.scanAllocs(fr.fn, body)
	if allocs {
		h.cnt = x.declare("cnt", "Int")
		x.assume(fmt.Sprintf("(<= %s %s)", st.cnt, h.cnt), h.cnt)
	}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			nv := x.fresh("l."+phiName(p), p.Type())
			if phis[p] != nil && phis[p].Clo != nil {
				panic(unsupported("function value changed in a loop"))
			}
			lp.phis[p] = nv
			fr.vals[p] = nv
		}
	}
	lp.stH = h
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			for _, f := range x.valid(h, lp.phis[p]) {
				x.assume(imp(r, f), lp.phis[p].L[0])
			}
		}
	}
	// frame
	for _, m := range lp.mods {
		if strings.HasPrefix(m, "IT.") {
			continue
		}
		if lp.spec.HasMod {
			x.assume(imp(r, x.frameFormula(m, h.maps[m], x.get(st, m), st.cnt, lp.frame, "q!r")), h.maps[m])
		} else {
			x.assume(imp(r, x.frameFormula(m, h.maps[m], x.get(x.entry, m), x.entry.cnt, x.frame, "q!r")), h.maps[m])
			x.setFramed(h.maps[m])
		}
	}
	// maps that the loop writes in new cells only: the cells of the entry keep their values
	if old, ok := x.oldCells(fr.fn, body); ok {
		for _, m := range lp.mods {
			if !strings.HasPrefix(m, "IT.") && !old[m] {
				x.assume(imp(r, x.frameFormula(m, h.maps[m], x.get(st, m), st.cnt, nil, "q!r")), h.maps[m])
			}
		}
	}
	for _, a := range x.autoInv(fr, lp, lp.phis, h) {
		x.assume(imp(r, a.Text), "")
	}
	ctx := x.loopCtx(fr, lp, lp.phis, h)
	if len(lp.spec.Import) > 0 {
		for _, n := range lp.spec.Import {
			x.tag = bareName(n)
			x.assume(imp(r, x.evalBool(ctx, x.baseInv(lp.n, n))), "")
		}
	}
	for _, c := range lp.spec.Inv {
		x.tag = c.Name
		x.assume(imp(r, x.evalBool(ctx, c)), "")
	}
	x.tag = ""
	for _, c := range lp.spec.Hints {
		x.evalHint(ctx, c, r)
	}
	for _, d := range lp.spec.Dec {
		v := x.evalSpec(ctx, d.E)
		lp.dec = append(lp.dec, x.def("dec", "Int", v.L[0]))
	}
	if len(lp.dec) == 0 {
		if d := x.autoDec(fr, lp, ctx); d != "" {
			lp.dec = append(lp.dec, x.def("dec", "Int", d))
		} else if x.con == nil || x.con.NoTerm == "" && x.con.Base == nil {
			if !x.isMapRange(lp) {
				x.oblige("safety", lname+"/terminates", r, "false", b.Instrs[0].Pos(), []string{"C01"})
			}
		}
	}
	x.assumeTInv(h, r)
	return h
}

// loopSets: the ghost assignments at the end of each iteration of a loop.
func (x *Exec) loopSets(n int) [][2]*Node {
	var out [][2]*Node
	if x.con != nil {
		for _, c := range []*Contract{x.con.Base, x.con} {
			if c != nil && c.Loops[n] != nil {
				out = append(out, c.Loops[n].Sets...)
			}
		}
	}
	return out
}

func (x *Exec) expandImport(lp *Loop) {
	var out []string
	for _, n := range lp.spec.Import {
		if n != "*" {
			out = append(out, n)
			continue
		}
		if b := x.con.Base.Loops[lp.n]; b != nil {
			for _, c := range b.Inv {
				out = append(out, c.Name)
			}
		}
	}
	lp.spec.Import = out
}

// baseInv: an invariant of the base contract, by name
func (x *Exec) baseInv(n int, name string) Clause {
	name = strings.TrimPrefix(name, "+")
	if x.con != nil && x.con.Base != nil {
		from := x.con.Base
		if k := strings.Index(name, "."); k > 0 { // of an aspect that is declared before this one
			for _, a := range x.con.Base.Aspects {
				if a == x.con {
					break
				}
				if strings.HasSuffix(a.Name, "#"+name[:k]) {
					from = a
				}
			}
			name = name[k+1:]
			if from == x.con.Base {
				panic(unsupported("no such aspect for invariant " + name))
			}
			x.e.usedCon[from.Name] = true
		}
		if from.Loops[n] != nil {
			for _, c := range from.Loops[n].Inv {
				if c.Name == name {
					return c
				}
			}
		}
	}
	panic(unsupported("no invariant " + name + " in the base contract"))
}

func bareName(n string) string {
	n = strings.TrimPrefix(n, "+")
	return n[strings.LastIndex(n, ".")+1:]
}

func (x *Exec) isMapRange(lp *Loop) bool {
	for _, in := range lp.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			return true
		}
	}
	return false
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// loopCtx is the specification context of a loop head with given phi values.
func (x *Exec) loopCtx(fr *Frame, lp *Loop, phis map[*ssa.Phi]*Val, st *State) *SpecCtx {
	return &SpecCtx{x: x, st: st, old: x.entry, fr: fr, block: lp.head, phis: phis, loop: lp}
}

func (x *Exec) checkInv(fr *Frame, lp *Loop, phis map[*ssa.Phi]*Val, st *State, guard, lname, when string) {
	ctx := x.loopCtx(fr, lp, phis, st)
	x.expandImport(lp)
	for _, n := range lp.spec.Import { // +NAME: at the end of an iteration, too; proved with the contract it comes from
		if n[0] == '+' {
			x.tag = bareName(n)
			x.assume(imp(guard, x.evalBool(ctx, x.baseInv(lp.n, n))), "")
		}
	}
	x.tag = ""
	x.stable(ctx, guard)
	for _, c := range lp.spec.Hints {
		x.evalHint(ctx, c, guard)
	}
	for _, a := range x.autoInv(fr, lp, phis, st) {
		x.oblige("inv", lname+"/"+a.Name+"/"+when, guard, a.Text, lp.head.Instrs[0].Pos(), nil)
	}
	for _, c := range lp.spec.Inv {
		if when != "entry" {
			x.using = c.Using
		}
		x.obligeSplit("inv", lname+"/"+c.Name+"/"+when, guard, x.evalGoal(ctx, c), lp.head.Instrs[0].Pos(), c.Props)
	}
	x.using = nil
	x.checkTInv(st, guard, lname+"/"+when)
	if when == "entry" {
		if lp.spec.HasMod {
			return
		}
		// objects written before the loop are covered by the frame of the function
		x.checkFrame(lp.mods, st, x.entry, x.frame, guard, lname+"/frame/"+when, nil)
		return
	}
	if lp.spec.HasMod {
		x.checkFrame(lp.mods, st, lp.stE, lp.frame, guard, lname+"/frame/"+when, nil)
	} else {
		x.checkFrame(lp.mods, st, x.entry, x.frame, guard, lname+"/frame/"+when, nil)
	}
}

// backEdge checks the invariants at the end of an iteration.
func (x *Exec) backEdge(fr *Frame, from, head *ssa.BasicBlock, cond string, st *State) {
	lp := fr.loops[head]
	if lp == nil {
		panic(unsupported("irreducible control flow"))
	}
	lp.back++
	phis := map[*ssa.Phi]*Val{}
	pi := -1
	for i, p := range head.Preds {
		if p == from {
			pi = i
		}
	}
	for p := range lp.phis {
		v := x.val(fr, p.Edges[pi])
		if !types.Identical(v.T, p.Type()) {
			c := *v
			c.T = p.Type()
			v = &c
		}
		phis[p] = v
	}
	mods := setOf(lp.mods)
	for m := range st.maps {
		if strings.HasPrefix(m, "IT.") && lp.stH.maps[m] == "" {
			continue // an iterator made in the loop
		}
		if !mods[m] && x.get(st, m) != x.get(lp.stH, m) {
			panic(unsupported("memory written in a loop in a way that was not foreseen: " + m))
		}
	}
	if sets := x.loopSets(lp.n); len(sets) > 0 && !x.termMode {
		st = st.clone()
		x.ghostSet(sets, x.loopCtx(fr, lp, phis, st), st)
	}
	lname := fmt.Sprintf("loop%d", lp.n)
	when := "preserved"
	if lp.back > 1 {
		when = fmt.Sprintf("preserved%d", lp.back)
	}
	x.checkInv(fr, lp, phis, st, cond, lname, when)
	ctx := x.loopCtx(fr, lp, phis, st)
	var now []string
	for _, d := range lp.spec.Dec {
		now = append(now, x.evalSpec(ctx, d.E).L[0])
	}
	if len(lp.spec.Dec) == 0 && len(lp.dec) == 1 {
		now = append(now, x.autoDec(fr, lp, ctx))
	}
	if len(now) > 0 {
		x.oblige("dec", lname+"/decreases/"+when, cond, lexLess(now, lp.dec), head.Instrs[0].Pos(), []string{"C01"})
	}
}

func lexLess(now, was []string) string {
	var alts []string
	for i := range now {
		var c []string
		for k := 0; k < i; k++ {
			c = append(c, eq(now[k], was[k]))
		}
		c = append(c, fmt.Sprintf("(< %s %s)", now[i], was[i]), fmt.Sprintf("(<= 0 %s)", was[i]))
		alts = append(alts, and(c...))
	}
	return or(alts...)
}

type autoClause struct{ Name, Text string }

// stepOf recognises phi = phi + c on every back edge.
func stepOf(p *ssa.Phi, lp *Loop) (inc int64, ok bool) {
	seen := false
	for i, pr := range lp.head.Preds {
		if !lp.body[pr] {
			continue
		}
		b, isB := p.Edges[i].(*ssa.BinOp)
		if !isB || b.Op != token.ADD && b.Op != token.SUB {
			return 0, false
		}
		c, isC := b.Y.(*ssa.Const)
		if !isC || b.X != p || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		v, _ := constant.Int64Val(c.Value)
		if b.Op == token.SUB {
			v = -v
		}
		if seen && v != inc {
			return 0, false
		}
		inc, seen = v, true
	}
	return inc, seen
}

// growing recognises slices that a loop changes by append only.
func growing(p *ssa.Phi, lp *Loop) (grows, shrinks bool) {
	seen := map[ssa.Value]bool{p: true}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if !lp.body[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, isB := v.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && lp.body[v.Block()] {
				grows = true
				return ok(v.Call.Args[0])
			}
		case *ssa.Slice:
			if v.Low == nil && v.Max == nil && lp.body[v.Block()] {
				if _, isS := v.X.Type().Underlying().(*types.Slice); isS {
					shrinks = true
					return ok(v.X)
				}
			}
		}
		return false
	}
	for i, pr := range lp.head.Preds {
		if lp.body[pr] && !ok(p.Edges[i]) {
			return false, false
		}
	}
	return
}

// loopBound finds "i < bound" of the loop condition with a bound defined outside the loop.
func loopBound(lp *Loop) (i ssa.Value, bound ssa.Value, ok bool) {
	in := lp.head.Instrs[len(lp.head.Instrs)-1]
	br, isIf := in.(*ssa.If)
	if !isIf {
		return nil, nil, false
	}
	c, isB := br.Cond.(*ssa.BinOp)
	if !isB || c.Op != token.LSS {
		return nil, nil, false
	}
	return c.X, c.Y, true
}

func (lp *Loop) invariantVal(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		if !lp.body[v.Block()] {
			return true
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if _, sl := c.Call.Args[0].Type().Underlying().(*types.Slice); sl {
					return lp.invariantVal(c.Call.Args[0])
				}
			}
		}
	}
	return false
}

func (x *Exec) autoInv(fr *Frame, lp *Loop, phis map[*ssa.Phi]*Val, st *State) []autoClause {
	var out []autoClause
	iv, bound, okB := loopBound(lp)
	for _, in := range lp.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if _, isS := p.Type().Underlying().(*types.Slice); isS {
			if g, sh := growing(p, lp); g || sh {
				v, ev := phis[p].L, lp.entryP[p].L
				lo := fmt.Sprintf("(<= %s %s)", ev[2], v[2])
				if sh {
					lo = "true"
				}
				out = append(out, autoClause{"auto_" + phiName(p) + "_own", fmt.Sprintf("(and %s (<= %s %s) (ite (= %s %s) (and (= %s %s) (= %s %s)) (and (<= %s %s) (= %s 0))))",
					lo, v[2], v[3], v[0], ev[0], v[1], ev[1], v[3], ev[3], lp.stE.cnt, v[0], v[1])})
			}
			continue
		}
		if b, isB := p.Type().Underlying().(*types.Basic); !isB || b.Info()&types.IsInteger == 0 {
			continue
		}
		inc, ok := stepOf(p, lp)
		if !ok {
			continue
		}
		v, ev := phis[p].L[0], lp.entryP[p].L[0]
		if inc > 0 {
			out = append(out, autoClause{"auto_" + phiName(p) + "_lo", fmt.Sprintf("(<= %s %s)", ev, v)})
		} else if inc < 0 {
			out = append(out, autoClause{"auto_" + phiName(p) + "_hi", fmt.Sprintf("(<= %s %s)", v, ev)})
		}
		if okB && inc == 1 && lp.invariantVal(bound) {
			b := x.boundTerm(fr, bound)
			if iv == ssa.Value(p) {
				out = append(out, autoClause{"auto_" + phiName(p) + "_hi", fmt.Sprintf("(or (<= %s %s) (= %s %s))", v, b, v, ev)})
			} else if bo, isB := iv.(*ssa.BinOp); isB && bo.X == ssa.Value(p) && bo.Op == token.ADD {
				// range loop: the next index is below the bound
				out = append(out, autoClause{"auto_" + phiName(p) + "_hi", fmt.Sprintf("(or (< %s %s) (= %s %s))", v, b, v, ev)})
			}
		}
	}
	return out
}

func (x *Exec) boundTerm(fr *Frame, v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return x.val(fr, c.Call.Args[0]).L[2]
		}
	}
	return x.val(fr, v).L[0]
}

// autoDec derives a measure for counting loops.
func (x *Exec) autoDec(fr *Frame, lp *Loop, ctx *SpecCtx) string {
	iv, bound, ok := loopBound(lp)
	if !ok || !lp.invariantVal(bound) {
		return ""
	}
	p, isP := iv.(*ssa.Phi)
	if !isP {
		bo, isB := iv.(*ssa.BinOp)
		if !isB || bo.Op != token.ADD {
			return ""
		}
		p, isP = bo.X.(*ssa.Phi)
		if !isP {
			return ""
		}
	}
	if inc, ok := stepOf(p, lp); !ok || inc <= 0 || ctx.phis[p] == nil {
		return ""
	}
	return fmt.Sprintf("(+ 1 (- %s %s))", x.boundTerm(fr, bound), ctx.phis[p].L[0])
}

// ---------------------------------------------------------------- values

func (x *Exec) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	v := &Val{T: t}
	switch c.Value.Kind() {
	case constant.Bool:
		v.L = []string{fmt.Sprint(constant.BoolVal(c.Value))}
	case constant.String:
		v.L = []string{x.strConst(constant.StringVal(c.Value))}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
			v.L = []string{x.fltConst(c.Value.ExactString())}
			break
		}
		v.L = []string{intLit(c.Value.ExactString())}
	default:
		v.L = []string{x.fltConst(c.Value.ExactString())}
	}
	return v
}

func intLit(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (x *Exec) fltConst(s string) string {
	n := sym("flt." + s)
	if !x.declared[n] {
		x.declared[n] = true
		x.emitFront(fmt.Sprintf("(declare-const %s Flt)", n))
	}
	return n
}

func (x *Exec) val(fr *Frame, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Val{T: v.Type(), L: []string{x.fnID(v)}, Clo: &Closure{fn: v}}
	case *ssa.Global:
		n := sym("glob." + v.Pkg.Pkg.Name() + "." + v.Name())
		if !x.declared[n] {
			x.declared[n] = true
			x.emitFront(fmt.Sprintf("(declare-const %s Ref)", n))
			x.emitFront(fmt.Sprintf("(assert (and ((_ is obj) %s) (> (root %s) 0) (< (root %s) cnt0)))", n, n, n))
		}
		return &Val{T: v.Type(), L: []string{n}}
	case *ssa.Builtin:
		panic(unsupported("builtin as value"))
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("value %s of %s used before definition", v.Name(), fr.fn)))
}

func (x *Exec) fnID(f *ssa.Function) string {
	n := sym("fn." + f.String())
	if !x.declared[n] {
		x.declared[n] = true
		x.emitFront(fmt.Sprintf("(declare-const %s Int)", n))
		x.emitFront(fmt.Sprintf("(assert (not (= %s 0)))", n))
	}
	return n
}

func (x *Exec) newObj(st *State) string {
	id := st.cnt
	st.cnt = x.def("cnt", "Int", fmt.Sprintf("(+ %s 1)", id))
	return id
}

func one(t types.Type, s string) *Val { return &Val{T: t, L: []string{s}} }

func (x *Exec) nonNil(p *Val, guard string, what string, pos token.Pos) {
	if p.LV != nil {
		return
	}
	t := p.L[0]
	if strings.HasPrefix(t, "(obj ") || strings.HasPrefix(t, "(fld ") || strings.HasPrefix(t, "(elem ") || strings.HasPrefix(t, "glob.") {
		return
	}
	x.oblige("safety", "nil "+what, guard, not(eq(t, "null")), pos, []string{"C01"})
}

// ---------------------------------------------------------------- instructions

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, r string) *retInfo {
	for i, in := range b.Instrs {
		fr.curIdx = i
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, in.Cond).L[0]
			t := x.def("e", "Bool", and(r, c))
			f := x.def("e", "Bool", and(r, not(c)))
			fr.edges[b] = []edge{{t, st}, {f, st}}
			for k, s := range b.Succs {
				if isBack(b, s) {
					x.backEdge(fr, b, s, fr.edges[b][k].cond, st)
				}
			}
			return nil
		case *ssa.Jump:
			fr.edges[b] = []edge{{r, st}}
			if isBack(b, b.Succs[0]) {
				x.backEdge(fr, b, b.Succs[0], r, st)
			}
			return nil
		case *ssa.Return:
			ri := &retInfo{reach: r, st: st}
			for k, v := range in.Results {
				rv := *x.val(fr, v)
				rv.T = fr.fn.Signature.Results().At(k).Type()
				ri.vals = append(ri.vals, &rv)
			}
			return ri
		case *ssa.Panic:
			x.oblige("safety", "panic", r, "false", in.Pos(), []string{"C01"})
			return nil
		case *ssa.RunDefers:
		default:
			r = x.instr(fr, in, st, r)
		}
	}
	return nil
}

func (x *Exec) set(fr *Frame, v ssa.Value, val *Val, st *State, r string) {
	nv := *val
	if nv.T == nil || nv.Tup == nil {
		nv.T = v.Type()
	}
	if nv.Tup == nil && nv.L != nil {
		ls := x.e.leaves(v.Type())
		l := make([]string, len(nv.L))
		for i := range nv.L {
			l[i] = x.def("v."+v.Name(), ls[i].sort, nv.L[i])
		}
		nv.L = l
	}
	fr.vals[v] = &nv
}

func (x *Exec) assumeValid(st *State, v *Val, r string) {
	if v.Tup != nil {
		for _, t := range v.Tup {
			x.assumeValid(st, t, r)
		}
		return
	}
	ls := x.e.leaves(v.T)
	for i, l := range ls {
		switch l.kind {
		case "ref", "map":
			for _, f := range x.valid1(st, l, v, i) {
				x.assume(imp(r, f), v.L[i])
			}
		case "arr":
			for _, f := range x.valid1(st, l, v, i) {
				for k := 0; k < 4; k++ {
					x.assume(imp(r, f), v.L[i+k])
				}
			}
		}
	}
}

func (x *Exec) valid1(st *State, l Leaf, v *Val, i int) []string {
	switch l.kind {
	case "ref":
		return []string{fmt.Sprintf("(< (root %s) %s)", v.L[i], st.cnt)}
	case "arr":
		a, o, n, c := v.L[i], v.L[i+1], v.L[i+2], v.L[i+3]
		return []string{fmt.Sprintf("(and (<= 0 %s) (< %s %s) (<= 0 %s) (<= 0 %s) (<= %s %s) (=> (= %s 0) (= %s 0)))", a, a, st.cnt, o, n, n, c, a, c)}
	case "map":
		return []string{fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v.L[i], v.L[i], st.cnt)}
	}
	return nil
}

func (x *Exec) instr(fr *Frame, in ssa.Instruction, st *State, r string) string {
	switch in := in.(type) {
	case *ssa.Alloc:
		id := x.newObj(st)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		ref := "(obj " + id + ")"
		if a, ok := t.Underlying().(*types.Array); ok {
			x.zeroElems(st, a.Elem(), id, r)
			fr.vals[in] = &Val{T: in.Type(), L: []string{ref}}
			return r
		}
		p := &Val{T: in.Type(), L: []string{ref}}
		x.store(st, p, x.zero(t))
		fr.vals[in] = p
	case *ssa.Store:
		p := x.val(fr, in.Addr)
		x.nonNil(p, r, "store", in.Pos())
		v := *x.val(fr, in.Val)
		v.T = in.Addr.Type().Underlying().(*types.Pointer).Elem()
		if v.Clo != nil {
			x.cloStore(fr, in.Addr, v.Clo)
		}
		x.store(st, p, &v)
	case *ssa.UnOp:
		a := x.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			x.nonNil(a, r, "dereference", in.Pos())
			v := x.load(st, a, in.Type())
			x.set(fr, in, v, st, r)
			x.assumeValid(st, fr.vals[in], r)
			if c := x.cloLoad(fr, in.X); c != nil {
				fr.vals[in].Clo = c
			}
		case token.NOT:
			x.set(fr, in, one(in.Type(), not(a.L[0])), st, r)
		case token.SUB:
			if x.e.leaves(in.Type())[0].sort == "Int" {
				x.set(fr, in, one(in.Type(), "(- "+a.L[0]+")"), st, r)
			} else {
				x.set(fr, in, x.fresh("neg", in.Type()), st, r)
			}
		default:
			x.set(fr, in, x.fresh("unop", in.Type()), st, r)
		}
	case *ssa.BinOp:
		x.set(fr, in, x.binop(fr, in, r), st, r)
	case *ssa.FieldAddr:
		p := x.val(fr, in.X)
		x.nonNil(p, r, "field access", in.Pos())
		s := in.X.Type().Underlying().(*types.Pointer).Elem()
		if x.e.opaque(s) {
			panic(unsupported("field of " + s.String()))
		}
		ft := s.Underlying().(*types.Struct).Field(in.Field).Type()
		if x.e.isStruct(ft) {
			fr.vals[in] = &Val{T: in.Type(), L: []string{fmt.Sprintf("(fld %s %d)", p.L[0], x.e.tag(s, in.Field))}}
		} else {
			if p.LV != nil {
				panic(unsupported("field of field pointer"))
			}
			fr.vals[in] = &Val{T: in.Type(), L: []string{fmt.Sprintf("(fld %s %d)", p.L[0], x.e.tag(s, in.Field))}, LV: &LVal{p.L[0], s, in.Field}}
		}
	case *ssa.Field:
		s := x.val(fr, in.X)
		a, b := x.e.fieldRange(in.X.Type(), in.Field)
		x.set(fr, in, &Val{T: in.Type(), L: append([]string{}, s.L[a:b]...)}, st, r)
	case *ssa.IndexAddr:
		s := x.val(fr, in.X)
		i := x.val(fr, in.Index).L[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.oblige("safety", "index", r, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", i, i, s.L[2]), in.Pos(), []string{"C01"})
			fr.vals[in] = one(in.Type(), fmt.Sprintf("(elem %s (ix %s %s))", s.L[0], s.L[1], i))
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			x.oblige("safety", "index", r, and(fmt.Sprintf("(<= 0 %s)", i), fmt.Sprintf("(< %s %d)", i, n)), in.Pos(), []string{"C01"})
			fr.vals[in] = one(in.Type(), fmt.Sprintf("(elem %s (ix 0 %s))", oid(s.L[0]), i))
		default:
			panic(unsupported("index of " + in.X.Type().String()))
		}
	case *ssa.Index:
		s := x.val(fr, in.X)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i := x.val(fr, in.Index).L[0]
			x.oblige("safety", "index", r, fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", i, i, s.L[0]), in.Pos(), []string{"C01"})
			x.set(fr, in, one(in.Type(), fmt.Sprintf("(strat %s %s)", s.L[0], i)), st, r)
			return r
		}
		panic(unsupported("index of " + in.X.Type().String()))
	case *ssa.Slice:
		x.set(fr, in, x.slice(fr, in, st, r), st, r)
	case *ssa.MakeSlice:
		n, c := x.val(fr, in.Len).L[0], x.val(fr, in.Cap).L[0]
		x.oblige("safety", "makeslice", r, fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", n, n, c), in.Pos(), []string{"C01"})
		id := x.newObj(st)
		x.zeroElems(st, in.Type().Underlying().(*types.Slice).Elem(), id, r)
		x.set(fr, in, &Val{T: in.Type(), L: []string{id, "0", n, c}}, st, r)
	case *ssa.MakeMap:
		id := x.newObj(st)
		d := x.e.domMap(in.Type())
		ks := x.e.keySort(in.Type().Underlying().(*types.Map))
		x.setMap(st, d, fmt.Sprintf("(store %s %s ((as const (Array %s Bool)) false))", x.get(st, d), id, ks))
		x.set(fr, in, one(in.Type(), id), st, r)
	case *ssa.MapUpdate:
		m, k, v := x.val(fr, in.Map), x.val(fr, in.Key), x.val(fr, in.Value)
		x.oblige("safety", "nil map write", r, not(eq(m.L[0], "0")), in.Pos(), []string{"C01"})
		x.mapSet(st, in.Map.Type(), m.L[0], k.L[0], v)
	case *ssa.Lookup:
		m := x.val(fr, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			i := x.val(fr, in.Index).L[0]
			x.oblige("safety", "index", r, fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", i, i, m.L[0]), in.Pos(), []string{"C01"})
			x.set(fr, in, one(in.Type(), fmt.Sprintf("(strat %s %s)", m.L[0], i)), st, r)
			return r
		}
		k := x.val(fr, in.Index)
		v, ok := x.mapGet(st, in.X.Type(), m.L[0], k.L[0])
		x.assumeValid(st, v, r)
		if in.CommaOk {
			fr.vals[in] = &Val{T: in.Type(), Tup: []*Val{v, one(types.Typ[types.Bool], ok)}}
		} else {
			x.set(fr, in, v, st, r)
		}
	case *ssa.Extract:
		t := x.val(fr, in.Tuple)
		fr.vals[in] = t.Tup[in.Index]
	case *ssa.Range:
		it := fmt.Sprintf("IT.%d", x.n)
		x.n++
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over string"))
		}
		ks := x.e.keySort(mt)
		x.e.mapSort[it] = "(Array " + ks + " Bool)"
		st.maps[it] = fmt.Sprintf("((as const (Array %s Bool)) false)", ks)
		fr.iters[in] = it
		m := x.val(fr, in.X)
		fr.vals[in] = &Val{T: in.X.Type(), L: []string{m.L[0]}}
	case *ssa.Next:
		x.next(fr, in, st, r)
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		fr.vals[in] = &Val{T: in.Type(), L: []string{x.box(in.X.Type(), v)}, Clo: v.Clo, Tup: nil}
	case *ssa.TypeAssert:
		return x.typeAssert(fr, in, st, r)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var op ssa.Value
		if c, ok := in.(*ssa.ChangeType); ok {
			op = c.X
		} else {
			op = in.(*ssa.ChangeInterface).X
		}
		v := *x.val(fr, op)
		v.T = in.(ssa.Value).Type()
		fr.vals[in.(ssa.Value)] = &v
	case *ssa.Convert:
		x.convert(fr, in, st, r)
	case *ssa.MakeClosure:
		var b []*Val
		for _, v := range in.Bindings {
			b = append(b, x.val(fr, v))
		}
		fr.vals[in] = &Val{T: in.Type(), L: []string{x.fnID(in.Fn.(*ssa.Function))}, Clo: &Closure{fn: in.Fn.(*ssa.Function), bind: b}}
	case *ssa.Call:
		return x.call(fr, in, &in.Call, st, r)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return r
}

func oid(ref string) string {
	if strings.HasPrefix(ref, "(obj ") {
		return ref[5 : len(ref)-1]
	}
	return "(oid " + ref + ")"
}

// closures stored in captured variables: remembered when the variable is assigned once.
func (x *Exec) cloStore(fr *Frame, addr ssa.Value, c *Closure) {
	if a, ok := addr.(*ssa.Alloc); ok {
		n := 0
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == a {
				n++
			}
		}
		if n == 1 {
			fr.vals[a].Clo = c
		}
	}
}

func (x *Exec) cloLoad(fr *Frame, addr ssa.Value) *Closure {
	if v, ok := fr.vals[addr]; ok && v.LV == nil && v.Clo != nil {
		if _, isPtr := addr.Type().Underlying().(*types.Pointer); isPtr {
			return v.Clo
		}
	}
	return nil
}

// zeroElems: the elements of a fresh array are zero.
func (x *Exec) zeroElems(st *State, elem types.Type, id, r string) {
	for _, m := range x.e.mapsOf(elem) {
		nm := x.declare("z."+m, x.e.mapSort[m])
		old := x.get(st, m)
		srt := x.e.mapSort[m]
		zs := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Ref "), ")")
		z := x.zeroLeaf(Leaf{sort: zs})
		x.assume(fmt.Sprintf("(forall ((q!r Ref)) (! (= (select %s q!r) (ite (= (root q!r) %s) %s (select %s q!r))) :pattern ((select %s q!r))))", nm, id, z, old, nm), nm)
		st.maps[m] = nm
	}
}

func (x *Exec) slice(fr *Frame, in *ssa.Slice, st *State, r string) *Val {
	s := x.val(fr, in.X)
	lo := "0"
	if in.Low != nil {
		lo = x.val(fr, in.Low).L[0]
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		hi, mx := s.L[2], s.L[3]
		if in.High != nil {
			hi = x.val(fr, in.High).L[0]
		}
		if in.Max != nil {
			mx = x.val(fr, in.Max).L[0]
		}
		g := fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, mx, mx, s.L[3])
		x.oblige("safety", "slice", r, g, in.Pos(), []string{"C01"})
		return &Val{T: in.Type(), L: []string{s.L[0], plus(s.L[1], lo), minus(hi, lo), minus(mx, lo)}}
	case *types.Pointer:
		n := fmt.Sprint(u.Elem().Underlying().(*types.Array).Len())
		hi := n
		if in.High != nil {
			hi = x.val(fr, in.High).L[0]
		}
		if lo != "0" || hi != n {
			x.oblige("safety", "slice", r, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, n), in.Pos(), []string{"C01"})
		}
		return &Val{T: in.Type(), L: []string{oid(s.L[0]), lo, minus(hi, lo), minus(n, lo)}}
	case *types.Basic:
		hi := fmt.Sprintf("(strlen %s)", s.L[0])
		if in.High != nil {
			hi = x.val(fr, in.High).L[0]
		}
		x.oblige("safety", "slice", r, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (strlen %s)))", lo, lo, hi, hi, s.L[0]), in.Pos(), []string{"C01"})
		return one(in.Type(), fmt.Sprintf("(substr %s %s %s)", s.L[0], lo, hi))
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

func plus(a, b string) string {
	if b == "0" {
		return a
	}
	if a == "0" {
		return b
	}
	return "(+ " + a + " " + b + ")"
}

func minus(a, b string) string {
	if b == "0" {
		return a
	}
	return "(- " + a + " " + b + ")"
}

func (x *Exec) mapGet(st *State, t types.Type, m, k string) (*Val, string) {
	mt := t.Underlying().(*types.Map)
	ok := x.def("in", "Bool", fmt.Sprintf("(and (not (= %s 0)) (select (select %s %s) %s))", m, x.get(st, x.e.domMap(t)), m, k))
	z := x.zero(mt.Elem())
	v := &Val{T: mt.Elem()}
	for i, l := range x.e.leaves(mt.Elem()) {
		v.L = append(v.L, x.def("mv", l.sort, ite(ok, fmt.Sprintf("(select (select %s %s) %s)", x.get(st, x.e.valMap(t, l)), m, k), z.L[i])))
	}
	return v, ok
}

func (x *Exec) mapSet(st *State, t types.Type, m, k string, v *Val) {
	mt := t.Underlying().(*types.Map)
	d := x.e.domMap(t)
	D := x.get(st, d)
	x.setMap(st, d, fmt.Sprintf("(store %s %s (store (select %s %s) %s true))", D, m, D, m, k))
	for i, l := range x.e.leaves(mt.Elem()) {
		vm := x.e.valMap(t, l)
		V := x.get(st, vm)
		x.setMap(st, vm, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", V, m, V, m, k, v.L[i]))
	}
}

func (x *Exec) next(fr *Frame, in *ssa.Next, st *State, r string) {
	if in.IsString {
		panic(unsupported("range over string"))
	}
	it := fr.iters[in.Iter]
	m := x.val(fr, in.Iter)
	t := m.T
	mt := t.Underlying().(*types.Map)
	ok := x.declare("next", "Bool")
	kv := x.fresh("key", mt.Key())
	k := kv.L[0]
	dom := fmt.Sprintf("(select %s %s)", x.get(st, x.e.domMap(t)), m.L[0])
	vis := st.maps[it]
	v, _ := x.mapGet(st, t, m.L[0], k)
	x.assume(imp(and(r, ok), fmt.Sprintf("(and (not (= %s 0)) (select %s %s) (not (select %s %s)))", m.L[0], dom, k, vis, k)), ok)
	ks := x.e.keySort(mt)
	x.assume(imp(and(r, not(ok)), fmt.Sprintf("(or (= %s 0) (forall ((q!k %s)) (! (=> (select %s q!k) (select %s q!k)) :pattern ((select %s q!k)) :pattern ((select %s q!k)))))", m.L[0], ks, dom, vis, dom, vis)), ok)
	st.maps[it] = x.def("vis", x.e.mapSort[it], ite(ok, fmt.Sprintf("(store %s %s true)", vis, k), vis))
	x.assumeValid(st, v, and(r, ok))
	x.assumeValid(st, kv, and(r, ok))
	fr.vals[in] = &Val{T: in.Type(), Tup: []*Val{one(types.Typ[types.Bool], ok), kv, v}}
}

// box makes an interface value.
func (x *Exec) box(t types.Type, v *Val) string {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.L[0]
	}
	ls := x.e.leaves(t)
	id := x.e.typeID(t)
	mk := sym(fmt.Sprintf("box.%s", typeName(t)))
	if !x.declared[mk] {
		x.declared[mk] = true
		var ss, bs, as []string
		for i, l := range ls {
			x.e.sortUse(l.sort)
			ss = append(ss, l.sort)
			bs = append(bs, fmt.Sprintf("(b%d %s)", i, l.sort))
			as = append(as, fmt.Sprintf("b%d", i))
		}
		x.declUnbox(t)
		if len(ls) == 0 {
			x.emitFront(fmt.Sprintf("(declare-const %s Any)", mk))
			x.emitFront(fmt.Sprintf("(assert (= (tagof %s) %d))", mk, id))
		} else {
			x.emitFront(fmt.Sprintf("(declare-fun %s (%s) Any)", mk, strings.Join(ss, " ")))
			app := fmt.Sprintf("(%s %s)", mk, strings.Join(as, " "))
			var c []string
			c = append(c, fmt.Sprintf("(= (tagof %s) %d)", app, id))
			for i := range ls {
				c = append(c, fmt.Sprintf("(= (%s %s) b%d)", sym(fmt.Sprintf("unbox.%s.%d", typeName(t), i)), app, i))
			}
			x.emitFront(fmt.Sprintf("(assert (forall (%s) (! (and %s) :pattern (%s))))", strings.Join(bs, " "), strings.Join(c, " "), app))
		}
	}
	if len(ls) == 0 {
		return mk
	}
	return fmt.Sprintf("(%s %s)", mk, strings.Join(v.L, " "))
}

func (x *Exec) declUnbox(t types.Type) {
	for i, l := range x.e.leaves(t) {
		n := sym(fmt.Sprintf("unbox.%s.%d", typeName(t), i))
		if !x.declared[n] {
			x.declared[n] = true
			x.e.sortUse(l.sort)
			x.emitFront(fmt.Sprintf("(declare-fun %s (Any) %s)", n, l.sort))
		}
	}
}

func (x *Exec) unbox(t types.Type, a string) *Val {
	x.declUnbox(t)
	v := &Val{T: t}
	for i := range x.e.leaves(t) {
		v.L = append(v.L, fmt.Sprintf("(%s %s)", sym(fmt.Sprintf("unbox.%s.%d", typeName(t), i)), a))
	}
	return v
}

func (x *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State, r string) string {
	a := x.val(fr, in.X).L[0]
	t := in.AssertedType
	var ok string
	var v *Val
	if _, isI := t.Underlying().(*types.Interface); isI {
		n := sym("implements." + typeName(t))
		if !x.declared[n] {
			x.declared[n] = true
			x.emitFront(fmt.Sprintf("(declare-fun %s (Int) Bool)", n))
			x.emitFront(fmt.Sprintf("(assert (not (%s 0)))", n))
		}
		if it := t.Underlying().(*types.Interface); it.Empty() {
			ok = not(eq(a, "nilAny"))
		} else {
			ok = fmt.Sprintf("(%s (tagof %s))", n, a)
		}
		v = &Val{T: t, L: []string{a}}
	} else {
		ok = fmt.Sprintf("(= (tagof %s) %d)", a, x.e.typeID(t))
		v = x.unbox(t, a)
	}
	if in.CommaOk {
		ok = x.def("ok", "Bool", ok)
		z := x.zero(t)
		o := &Val{T: t}
		for i, l := range x.e.leaves(t) {
			o.L = append(o.L, x.def("ta", l.sort, ite(ok, v.L[i], z.L[i])))
		}
		x.assumeValid(st, o, r)
		fr.vals[in] = &Val{T: in.Type(), Tup: []*Val{o, one(types.Typ[types.Bool], ok)}}
		return r
	}
	x.oblige("safety", "type assertion", r, ok, in.Pos(), []string{"C01"})
	x.set(fr, in, v, st, r)
	x.assumeValid(st, fr.vals[in], r)
	return r
}

func (x *Exec) convert(fr *Frame, in *ssa.Convert, st *State, r string) {
	v := x.val(fr, in.X)
	ft, tt := in.X.Type().Underlying(), in.Type().Underlying()
	fb, ok1 := ft.(*types.Basic)
	tb, ok2 := tt.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		// machine integers are treated as mathematical integers
		fr.vals[in] = one(in.Type(), v.L[0])
		return
	}
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		fr.vals[in] = one(in.Type(), v.L[0])
		return
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if s, ok := tt.(*types.Slice); ok {
			// []byte(s), []rune(s): a fresh array
			id := x.newObj(st)
			for _, m := range x.e.mapsOf(s.Elem()) {
				nm := x.declare("cv."+m, x.e.mapSort[m])
				x.assume(fmt.Sprintf("(forall ((q!r Ref)) (! (=> (not (= (root q!r) %s)) (= (select %s q!r) (select %s q!r))) :pattern ((select %s q!r))))", id, nm, x.get(st, m), nm), nm)
				st.maps[m] = nm
			}
			n := x.declare("cvlen", "Int")
			x.assume(fmt.Sprintf("(and (<= 0 %s) (<= %s (strlen %s)) (= (bytestr %s) %s))", n, n, v.L[0], id, v.L[0]), n)
			x.assume(fmt.Sprintf("(= (bytestr %s) %s)", id, v.L[0]), "")
			fr.vals[in] = &Val{T: in.Type(), L: []string{id, "0", n, n}}
			return
		}
	}
	nv := x.fresh("conv", in.Type())
	x.assumeValid(st, nv, r)
	fr.vals[in] = nv
}

func (x *Exec) binop(fr *Frame, in *ssa.BinOp, r string) *Val {
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	t := in.X.Type()
	bt := in.Type()
	srt := ""
	if ls := x.e.leaves(t); len(ls) == 1 {
		srt = ls[0].sort
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		var c []string
		_, sl := t.Underlying().(*types.Slice)
		if sl {
			c = []string{eq(a.L[0], b.L[0])} // only comparison with nil
		} else {
			ai, aok := t.Underlying().(*types.Interface)
			_, bok := in.Y.Type().Underlying().(*types.Interface)
			_ = ai
			al, bl := a.L, b.L
			if aok && !bok {
				bl = []string{x.box(in.Y.Type(), b)}
			} else if !aok && bok {
				al = []string{x.box(t, a)}
			}
			for i := range al {
				c = append(c, eq(al[i], bl[i]))
			}
		}
		e := and(c...)
		if in.Op == token.NEQ {
			e = not(e)
		}
		return one(bt, e)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[in.Op]
		if srt == "Int" {
			return one(bt, fmt.Sprintf("(%s %s %s)", op, a.L[0], b.L[0]))
		}
		return x.fresh("cmp", bt)
	case token.ADD:
		switch srt {
		case "Int":
			return one(bt, fmt.Sprintf("(+ %s %s)", a.L[0], b.L[0]))
		case "Str":
			return one(bt, fmt.Sprintf("(strcat %s %s)", a.L[0], b.L[0]))
		}
	case token.SUB, token.MUL:
		if srt == "Int" {
			op := map[token.Token]string{token.SUB: "-", token.MUL: "*"}[in.Op]
			return one(bt, fmt.Sprintf("(%s %s %s)", op, a.L[0], b.L[0]))
		}
	case token.QUO, token.REM:
		if srt == "Int" {
			x.oblige("safety", "division", r, not(eq(b.L[0], "0")), in.Pos(), []string{"C01"})
		}
	}
	return x.fresh("binop", bt)
}

// ---------------------------------------------------------------- write sets

func (e *Eng) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == nameutilPath || p == e.module || strings.HasPrefix(p, e.module+"/")
}

func (e *Eng) scanAllocs(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call, *ssa.Convert:
				return true
			}
		}
	}
	return false
}

func (e *Eng) scanBlock(fn *ssa.Function, b *ssa.BasicBlock, out map[string]bool, x *Exec) {
	add := func(t types.Type) {
		for _, m := range e.mapsOf(t) {
			out[m] = true
		}
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Alloc:
			t := in.Type().Underlying().(*types.Pointer).Elem()
			if a, ok := t.Underlying().(*types.Array); ok {
				add(a.Elem())
			} else {
				add(t)
			}
		case *ssa.Store:
			t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && !e.isStruct(t) {
				s := fa.X.Type().Underlying().(*types.Pointer).Elem()
				for _, l := range e.leaves(t) {
					out[e.fieldMap(s, fa.Field, l)] = true
				}
			} else {
				add(t)
			}
		case *ssa.MakeSlice:
			add(in.Type().Underlying().(*types.Slice).Elem())
		case *ssa.MakeMap:
			out[e.domMap(in.Type())] = true
		case *ssa.MapUpdate:
			e.addMap(in.Map.Type(), out)
		case *ssa.Convert:
			if s, ok := in.Type().Underlying().(*types.Slice); ok {
				add(s.Elem())
			}
		case *ssa.Call:
			e.scanCall(in, &in.Call, out)
		case *ssa.Defer, *ssa.Go:
			panic(unsupported("defer or go"))
		}
	}
}

// oldCells: the maps in which the blocks (of a loop) may write cells that exist before the loop; false where that is not known.
func (x *Exec) oldCells(fn *ssa.Function, body map[*ssa.BasicBlock]bool) (map[string]bool, bool) {
	out := map[string]bool{}
	known := true
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function, blocks []*ssa.BasicBlock, in map[*ssa.BasicBlock]bool)
	scan = func(f *ssa.Function, blocks []*ssa.BasicBlock, inBody map[*ssa.BasicBlock]bool) {
		for _, b := range blocks {
			if inBody != nil && !inBody[b] {
				continue
			}
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				case *ssa.Store:
					a := i.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
						} else if ia, ok := a.(*ssa.IndexAddr); ok && !isSlice(ia.X.Type()) {
							a = ia.X
						} else {
							break
						}
					}
					if al, ok := a.(*ssa.Alloc); ok && (inBody == nil || inBody[al.Block()]) {
						continue
					}
					x.e.scanBlock(f, &ssa.BasicBlock{Instrs: []ssa.Instruction{i}}, out, x)
				case *ssa.Call:
					c := &i.Call
					if _, ok := c.Value.(*ssa.Builtin); ok {
						x.e.scanCall(i, c, out)
						continue
					}
					if c.IsInvoke() {
						continue
					}
					g := c.StaticCallee()
					if g == nil {
						known = false
						return
					}
					if con := x.e.db.C[conName(g)]; con != nil && !con.Inline {
						ms, ok := x.conMaps(g, con)
						if !ok {
							known = false
							return
						}
						for m := range ms {
							out[m] = true
						}
						continue
					}
					if x.e.inModule(g) {
						if !seen[g] {
							seen[g] = true
							scan(g, g.Blocks, nil)
						}
						continue
					}
					x.e.scanCall(i, c, out)
				default:
					x.e.scanBlock(f, &ssa.BasicBlock{Instrs: []ssa.Instruction{i}}, out, x)
				}
			}
		}
	}
	scan(fn, fn.Blocks, body)
	return out, known
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// conMaps: the maps that the modifies clause of a contract mentions.
func (x *Exec) conMaps(f *ssa.Function, con *Contract) (ms map[string]bool, ok bool) {
	if len(f.FreeVars) > 0 {
		return nil, false
	}
	defer func() {
		if recover() != nil {
			ms, ok = nil, false
		}
	}()
	ms = map[string]bool{}
	if con.Pure {
		return ms, true
	}
	var args []*Val
	if rc := f.Signature.Recv(); rc != nil {
		args = append(args, x.fresh("any", rc.Type()))
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		args = append(args, x.fresh("any", f.Signature.Params().At(i).Type()))
	}
	st := x.entry.clone()
	ctx := &SpecCtx{x: x, st: st, old: st, names: x.paramNames(f, args, nil), pkg: x.e.fnPkg(f)}
	for _, e := range x.modEntries(con.Modifies, ctx) {
		for m := range e.maps {
			ms[m] = true
		}
	}
	return ms, true
}

func (e *Eng) addMap(t types.Type, out map[string]bool) {
	out[e.domMap(t)] = true
	for _, l := range e.leaves(t.Underlying().(*types.Map).Elem()) {
		out[e.valMap(t, l)] = true
	}
}

func (e *Eng) scanCall(in ssa.Instruction, c *ssa.CallCommon, out map[string]bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			for _, m := range e.mapsOf(c.Args[0].Type().Underlying().(*types.Slice).Elem()) {
				out[m] = true
			}
		case "delete":
			e.addMap(c.Args[0].Type(), out)
		}
		return
	}
	if c.StaticCallee() == nil && !c.IsInvoke() {
		for _, g := range e.sigTargets(c.Signature()) {
			for m := range e.writesOf(g) {
				out[m] = true
			}
		}
	}
	if f := c.StaticCallee(); f != nil {
		if f.String() == "sort.SliceStable" || f.String() == "sort.Slice" {
			if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
				for _, m := range e.mapsOf(mi.X.Type().Underlying().(*types.Slice).Elem()) {
					out[m] = true
				}
			}
			return
		}
		if builderWrite[f.String()] {
			for _, m := range e.mapsOf(c.Args[0].Type().Underlying().(*types.Pointer).Elem()) {
				out[m] = true
			}
			return
		}
		for m := range e.writesOf(f) {
			out[m] = true
		}
	}
}

var builderWrite = map[string]bool{"(*strings.Builder).WriteString": true, "(*strings.Builder).WriteRune": true,
	"(*strings.Builder).WriteByte": true, "(*strings.Builder).Reset": true}

// writesOf: every memory map a function may write, directly or through calls.
func (e *Eng) writesOf(f *ssa.Function) map[string]bool {
	if w, ok := e.writes[f]; ok {
		return w
	}
	reach := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if reach[g] {
			return
		}
		reach[g] = true
		for _, a := range g.AnonFuncs {
			visit(a)
		}
		if !e.inModule(g) {
			return
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil {
						visit(h)
					} else if _, ok := c.Common().Value.(*ssa.Builtin); !ok && !c.Common().IsInvoke() {
						for _, h := range e.sigTargets(c.Common().Signature()) {
							visit(h)
						}
					}
				}
			}
		}
	}
	visit(f)
	out := map[string]bool{}
	e.writes[f] = out
	var fs []*ssa.Function
	for g := range reach {
		fs = append(fs, g)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	e.writes[f] = map[string]bool{}
	for _, g := range fs {
		if !e.inModule(g) {
			continue
		}
		e.ghostWrites(g, out)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && e.inModule(h) {
						continue
					}
				}
				one := &ssa.BasicBlock{Instrs: []ssa.Instruction{in}}
				e.scanBlock(g, one, out, nil)
			}
		}
	}
	e.writes[f] = out
	return out
}
