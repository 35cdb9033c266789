package main

// goverif: a deductive verifier for the Go code of /repo.
//
// It loads the packages from source, builds SSA, generates one obligation per
// contract clause, invariant, frame condition and safety condition, and has SMT
// solvers discharge them. See /verif/DESIGN.md.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type obRep struct {
	Name   string   `json:"name"`
	Status string   `json:"status"`
	By     string   `json:"by,omitempty"`
	Secs   float64  `json:"secs"`
	Detail string   `json:"detail,omitempty"`
	Pos    string   `json:"pos,omitempty"`
	Props  []string `json:"props,omitempty"`
}

type errRep struct {
	Name   string `json:"name"`
	Detail string `json:"detail"`
}

type report struct {
	Property    string         `json:"property"`
	Obligations []obRep        `json:"obligations"`
	Errors      []errRep       `json:"errors"`
	Functions   []string       `json:"functions"`
	Lemmas      []string       `json:"lemmas"`
	BackEnds    map[string]int `json:"back_ends"`
	SolverSecs  float64        `json:"solver_seconds"`
	Vacuity     map[string]int `json:"vacuity"`
	Slowest     []obRep        `json:"slowest"`
	Trusted     []string       `json:"trusted_base"`
	Assumptions []string       `json:"assumptions"`
	WallSecs    float64        `json:"wall_seconds"`
}

func newEng(repo, contracts string, writeBase bool) (*Eng, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...", nameutilPath)
	if err != nil {
		return nil, err
	}
	if packages.PrintErrors(pkgs) > 0 {
		return nil, fmt.Errorf("the packages do not compile")
	}
	var renamed []string
	if writeBase {
		b, _ := json.MarshalIndent(collectAlpha(pkgs), "", " ")
		return nil, os.WriteFile(filepath.Join(contracts, "baseline.json"), b, 0o644)
	}
	if base := readBaseline(contracts); base != nil {
		if ov, log := alphaOverlay(pkgs, base); ov != nil {
			cfg.Overlay = ov
			p2, err := packages.Load(cfg, "./...", nameutilPath)
			ok := err == nil
			if ok {
				packages.Visit(p2, nil, func(p *packages.Package) { ok = ok && len(p.Errors) == 0 })
			}
			if ok && sameBinding(binding(pkgs), binding(p2)) {
				pkgs, renamed = p2, log
			}
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	e := &Eng{prog: prog, fset: prog.Fset, pkgByName: map[string]*ssa.Package{}, leafCache: map[types.Type][]Leaf{}, tags: map[string]int{},
		mapSort: map[string]string{}, sorts: map[string]bool{}, writes: map[*ssa.Function]map[string]bool{}, typeIDs: map[string]int{},
		fnByName: map[string]*ssa.Function{}, trustUsed: map[string]bool{}, usedCon: map[string]bool{}, scc: map[*ssa.Function]int{}}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			e.module = p.Module.Path
		}
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		if p.Pkg.Name() != "main" {
			e.pkgByName[p.Pkg.Name()] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if e.inModule(f) && f.Synthetic == "" {
			n := conName(f)
			if g := e.fnByName[n]; g != nil && g.String() > f.String() {
				continue
			}
			e.fnByName[n] = f
		}
	}
	e.findSCC()
	e.renamed = renamed
	return e, nil
}

// findSCC numbers the strongly connected components of the static call graph that contain a cycle.
func (e *Eng) findSCC() {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n, comp := 0, 0
	succ := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, a := range f.AnonFuncs {
			out = append(out, a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && e.inModule(g) {
						out = append(out, g)
					}
				}
			}
		}
		return out
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		for _, g := range succ(f) {
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				comp++
				for _, g := range c {
					e.scc[g] = comp
				}
			}
		}
	}
	for _, k := range sortedKeys(e.fnByName) {
		if f := e.fnByName[k]; idx[f] == 0 {
			visit(f)
		}
	}
}

// nameutilPath: a small dependency whose functions are verified with the repository.
const nameutilPath = "github.com/shellyln/go-nameutil/nameutil"

func (x *Exec) vac(name, guard string) {
	if x.termMode {
		return
	}
	o := &Oblig{Name: x.uniq(x.name + "/reachable:" + name), Kind: "vac", Fn: x.name, Guard: guard, Goal: "false", at: len(x.items), x: x, Vac: true}
	x.obs = append(x.obs, o)
}

// verifyFunc generates the obligations of one function.
func (e *Eng) verifyFunc(con *Contract) (x *Exec, err error) {
	f := e.fnByName[strings.SplitN(con.Name, "#", 2)[0]]
	if f == nil {
		return nil, fmt.Errorf("function %s does not exist", con.Name)
	}
	x = e.newExec(con.Name)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVERIF_TRACE") != "" {
				debug.PrintStack()
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	x.fn, x.con = f, con
	st := &State{maps: map[string]string{}, cnt: "cnt0"}
	x.entry = st.clone()
	x.entryVals = map[string]*Val{}
	fr := &Frame{fn: f, vals: map[ssa.Value]*Val{}}
	x.top = fr
	for _, p := range f.Params {
		v := x.fresh("p."+p.Name(), p.Type())
		fr.vals[p] = v
		x.entryVals[p.Name()] = v
		x.assumeValid(st, v, "true")
	}
	for _, p := range f.FreeVars {
		v := x.fresh("fv."+p.Name(), p.Type())
		fr.vals[p] = v
		x.entryVals["&"+p.Name()] = v
		x.assumeValid(st, v, "true")
		x.assume(not(eq(v.L[0], "null")), "")
	}
	for _, g := range con.Ghost {
		_ = g
	}
	ctx := &SpecCtx{x: x, st: st, old: x.entry, fr: fr, pkg: e.fnPkg(f)}
	for _, c := range con.Requires {
		x.tag = c.Name
		x.assume(x.evalBool(ctx, c), "")
	}
	x.tag = ""
	for _, c := range con.EntryHints {
		x.evalHint(ctx, c, "true")
	}
	x.assumeTInv(st, "true")
	x.vac("entry", "true")
	x.frame = x.modEntries(con.Modifies, ctx)
	for _, d := range con.Dec {
		x.measure = append(x.measure, x.def("measure", "Int", x.evalSpec(ctx, d.E).L[0]))
	}
	x.ghostClear(con, ctx, st)
	x.ghostSet(con.Enters, ctx, st)
	vals, out, reach := x.run(fr, st.clone(), "true")
	x.results = vals
	var last *ssa.BasicBlock
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if last != nil {
				last = nil
				break
			}
			last = b
		}
	}
	post := &SpecCtx{x: x, st: out, old: x.entry, fr: fr, pkg: e.fnPkg(f), results: vals, resNames: f.Signature.Results(), atExit: true}
	if last != nil {
		post.block, post.upto = last, len(last.Instrs)
	}
	x.ghostSet(con.Sets, post, out)
	x.stable(post, reach)
	for _, c := range con.Hints {
		x.evalHint(post, c, reach)
	}
	x.vac("exit", reach)
	for _, c := range con.Ensures {
		x.using = c.Using
		x.obligeSplit("post", c.Name, reach, x.evalGoal(post, c), token.NoPos, c.Props)
	}
	x.using = nil
	x.checkTInv(out, reach, "exit")
	x.checkFrame(sortedKeys(out.maps), out, x.entry, x.frame, reach, "frame", nil)
	for n := range con.Loops {
		if n > x.loopN {
			return x, fmt.Errorf("the contract has a loop %d, the code has %d loops", n, x.loopN)
		}
	}
	x.addLemmaAxioms("")
	return x, nil
}

// proveLemma generates the obligations of a lemma.
func (e *Eng) proveLemma(lm *Lemma) (x *Exec, err error) {
	x = e.newExec("lemma " + lm.Name)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVERIF_TRACE") != "" {
				debug.PrintStack()
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	states := map[string]*State{}
	state := func(n string) *State {
		if states[n] == nil {
			states[n] = &State{maps: map[string]string{}, cnt: "cnt0", pre: n + "."}
		}
		return states[n]
	}
	x.entry = state("S")
	names := map[string]*Val{}
	for _, p := range lm.Params {
		t, s := e.specType(p.Type, nil)
		var v *Val
		if t != nil {
			v = x.fresh(p.Name, t)
			if _, ok := t.Underlying().(*types.Slice); ok {
				x.assume(fmt.Sprintf("(and (<= 0 %s) (<= 0 %s) (<= %s %s))", v.L[1], v.L[2], v.L[2], v.L[3]), "")
			}
		} else {
			v = &Val{S: s, L: []string{x.declare(p.Name, s)}}
		}
		if p.State != "" {
			v.St = state(p.State)
		}
		names[p.Name] = v
	}
	c := &SpecCtx{x: x, st: state("S"), old: state("S"), names: names}
	for _, r := range lm.Requires {
		x.assume(x.evalBool(c, r), "")
	}
	x.vac("requires", "true")
	for _, h := range lm.Hints {
		x.evalHint(c, h, "true")
	}
	for _, u := range lm.Uses {
		x.evalHint(c, u, "true")
	}
	for _, ih := range lm.IH {
		if lm.Dec == nil {
			return x, fmt.Errorf("lemma %s: induction without decreases", lm.Name)
		}
		if len(ih) != len(lm.Params) {
			return x, fmt.Errorf("lemma %s: ih takes %d arguments", lm.Name, len(lm.Params))
		}
		n2 := map[string]*Val{}
		for i, p := range lm.Params {
			v := *x.evalSpec(c, ih[i])
			if v.T == nil && v.S == "" {
				return x, fmt.Errorf("bad ih argument")
			}
			if v.St == nil {
				v.St = names[p.Name].St
			}
			n2[p.Name] = &v
		}
		c2 := &SpecCtx{x: x, st: c.st, old: c.old, names: n2}
		was := x.evalSpec(c, lm.Dec).L[0]
		now := x.evalSpec(c2, lm.Dec).L[0]
		var rq, en []string
		for _, r := range lm.Requires {
			// a hypothesis about parameters which the induction does not change holds as it was assumed
			same := true
			for id := range idents(r.E, nil) {
				if a, b := names[id], n2[id]; a != nil && !(a.St == b.St && a.T == b.T && a.S == b.S && reflect.DeepEqual(a.L, b.L)) {
					same = false
				}
			}
			if !same {
				rq = append(rq, x.evalBool(c2, r))
			}
		}
		for _, r := range lm.Ensures {
			en = append(en, x.evalBool(c2, r))
		}
		g := append([]string{fmt.Sprintf("(<= 0 %s)", now), fmt.Sprintf("(< %s %s)", now, was)}, rq...)
		x.assume(imp(and(g...), and(en...)), "")
	}
	for _, en := range lm.Ensures {
		x.obligeSplit("lemma", en.Name, "true", x.evalGoal(c, en), token.NoPos, nil)
	}
	x.addLemmaAxioms(lm.Name)
	for _, n := range e.db.LemmaOrder {
		if n == lm.Name {
			break
		}
		delete(x.usedLemma, n)
		defer func(n string) { x.usedLemma[n] = true }(n)
	}
	for n := range x.usedLemma {
		return x, fmt.Errorf("lemma %s uses lemma %s, which is not stated before it", lm.Name, n)
	}
	return x, nil
}

func idents(n *Node, m map[string]bool) map[string]bool {
	if m == nil {
		m = map[string]bool{}
	}
	if n == nil {
		return m
	}
	if n.Op == "id" {
		m[n.S] = true
	}
	for _, a := range n.A {
		idents(a, m)
	}
	for _, v := range n.Vars {
		idents(v.Lo, m)
		idents(v.Hi, m)
	}
	for _, p := range n.Pat {
		for _, a := range p {
			idents(a, m)
		}
	}
	return m
}

func contains(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}

func main() {
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("property", "", "property, or empty for all")
	outp := flag.String("out", "", "")
	seed := flag.Int("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	smt := flag.String("smt", "", "")
	only := flag.String("func", "", "development: only these functions (comma separated)")
	match := flag.String("match", "", "development: only obligations whose name contains this")
	keep := flag.Bool("keep", false, "keep the SMT files")
	verbose := flag.Bool("v", false, "")
	writeBase := flag.Bool("baseline", false, "write the names of the current source to the baseline of the contracts")
	list := flag.Bool("list", false, "list functions")
	dump := flag.String("ssa", "", "print the SSA of a function")
	fast := flag.Int("fast", 0, "development: one solver, this many seconds")
	flag.Parse()
	t0 := time.Now()
	rep := &report{Property: *prop, Vacuity: map[string]int{}}
	fail := func(n string, err error) { rep.Errors = append(rep.Errors, errRep{n, err.Error()}) }
	finish := func() {
		rep.WallSecs = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *outp != "" {
			os.WriteFile(*outp, b, 0o644)
		}
		bad := 0
		for _, o := range rep.Obligations {
			if o.Status != "proved" {
				bad++
				fmt.Printf("FAIL %s [%s] %s %s\n", o.Name, o.Status, o.Pos, o.Detail)
			}
		}
		for _, o := range rep.Errors {
			fmt.Printf("ERROR %s: %s\n", o.Name, o.Detail)
		}
		fmt.Printf("%d obligations, %d not proved, %d errors, %d functions, %d lemmas, vacuity %v, back ends %v, solver %.1fs, wall %.1fs\n",
			len(rep.Obligations), bad, len(rep.Errors), len(rep.Functions), len(rep.Lemmas), rep.Vacuity, rep.BackEnds, rep.SolverSecs, rep.WallSecs)
		if *verbose {
			for _, o := range rep.Slowest {
				fmt.Printf("  %.1fs %s %s %s\n", o.Secs, o.By, o.Name, o.Detail)
			}
			for _, s := range rep.Trusted {
				fmt.Println("  trusted:", s)
			}
		}
		if bad+len(rep.Errors) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	e, err := newEng(*repo, *contracts, *writeBase)
	if *writeBase && err == nil {
		return
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *list {
		for _, k := range sortedKeys(e.fnByName) {
			fmt.Println(k, e.scc[e.fnByName[k]])
		}
		return
	}
	if *dump != "" {
		f := e.fnByName[*dump]
		if f == nil {
			fmt.Println("no such function")
			return
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	db, err := loadSpecs(*contracts)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.db = db
	e.prop = *prop
	// functions of the property, and the contracted functions they call
	want := map[string]bool{}
	for n, c := range db.C {
		if c.Inline {
			continue
		}
		if *prop == "" || c.speaksOf(*prop) {
			want[n] = true
		}
	}
	if *only != "" {
		want = map[string]bool{}
		for _, n := range strings.Split(*only, ",") {
			if db.C[n] != nil {
				want[n] = true
			}
		}
	}
	done := map[string]bool{}
	var obs []*Oblig
	lemmas := map[string]bool{}
	for {
		var todo []string
		for n := range want {
			if !done[n] {
				todo = append(todo, n)
			}
		}
		sort.Strings(todo)
		if len(todo) == 0 {
			break
		}
		for _, n := range todo {
			done[n] = true
			c := db.C[n]
			if c.Base != nil && *only == "" {
				want[c.Base.Name] = true
			}
			if c.Trusted != "" {
				continue
			}
			if *only != "" && !want[n] {
				continue
			}
			x, err := e.verifyFunc(c)
			if err != nil {
				fail(n, err)
				continue
			}
			rep.Functions = append(rep.Functions, n)
			for _, o := range x.obs {
				if o.Vac || len(o.Props) == 0 || *prop == "" || contains(o.Props, *prop) {
					obs = append(obs, o)
				}
			}
			for l := range x.usedLemma {
				lemmas[l] = true
			}
		}
		if *only == "" {
			for n := range e.usedCon {
				if c := db.C[n]; c != nil && !c.Inline {
					want[n] = true
				}
			}
		}
	}
	// lemmas used, and all lemmas with triggers
	for n, l := range db.Lemmas {
		if len(l.Auto) > 0 || *prop == "" || contains(l.Props, *prop) {
			lemmas[n] = true
		}
	}
	if *only != "" {
		lemmas = map[string]bool{}
		for _, n := range strings.Split(*only, ",") {
			n = strings.TrimPrefix(n, "lemma:")
			if db.Lemmas[n] != nil {
				lemmas[n] = true
			}
		}
	}
	doneL := map[string]bool{}
	for again := true; again; {
		again = false
		for _, n := range db.LemmaOrder {
			if !lemmas[n] || doneL[n] {
				continue
			}
			doneL[n] = true
			again = true
			lm := db.Lemmas[n]
			if lm.Trusted != "" {
				e.trustUsed["lemma "+n+" is assumed: "+lm.Trusted] = true
				continue
			}
			x, err := e.proveLemma(lm)
			if err != nil {
				fail("lemma "+n, err)
				continue
			}
			rep.Lemmas = append(rep.Lemmas, n)
			obs = append(obs, x.obs...)
			if *only == "" {
				for l := range x.usedLemma {
					lemmas[l] = true
				}
			}
		}
	}
	if *match != "" {
		var o2 []*Oblig
		for _, o := range obs {
			if strings.Contains(o.Name, *match) {
				o2 = append(o2, o)
			}
		}
		obs = o2
	}
	dir := *smt
	if dir == "" {
		dir = "/tmp/goverif-smt"
		os.RemoveAll("/tmp/goverif-smt")
	}
	k := 1
	if *tier == "thorough" {
		k = 3
	}
	sd := *seed % 1000
	sv := &Solver{sem: make(chan struct{}, runtime.NumCPU()), dir: dir, seed: sd, stats: map[string]int{}, keep: *keep, maxHard: 8, deadline: time.Now().Add(time.Duration(map[bool]int{true: 1500, false: 420}[*tier == "thorough"]) * time.Second), plan: [][]attempt{
		{z3("z3-new", 4), z3("z3-new+", 3)},
		{z3("z3", 4), cvc5(15 * k), z3("z3-new", 20*k, "smt.random_seed=7"), z3("z3-new+", 20*k, "smt.random_seed=7"), z3("z3", 20*k, "smt.random_seed=7")},
		{z3("z3-new", 40*k, "smt.random_seed=13", "smt.qi.eager_threshold=30"), z3("z3-new", 40*k, "smt.random_seed=3", "smt.case_split=3"), cvc5(40*k, "--full-saturate-quant")},
	}}
	sv.split = []attempt{z3("z3-new", 10*k, "smt.case_split=3"), z3("z3-new", 15*k, "smt.random_seed=7"), z3("z3-new", 15*k), cvc5(15 * k)}
	if *fast > 0 {
		sv.plan = [][]attempt{{z3("z3-new", *fast), z3("z3-new+", *fast)}, {}}
		sv.split = []attempt{z3("z3-new", *fast, "smt.case_split=3"), z3("z3-new", *fast)}
	}
	sv.all(obs, 2*runtime.NumCPU())
	for _, o := range obs {
		if o.Vac {
			rep.Vacuity[o.Status]++
			if o.Status == "vacuous" || o.Status == "error" {
				if *prop == "" || !db.deadOK(o.Name) {
					fail(o.Name, fmt.Errorf("%s: the assumptions at this point are contradictory, nothing is proved behind it (%s)", o.Status, o.Detail))
				}
			}
			continue
		}
		rep.Obligations = append(rep.Obligations, obRep{o.Name, o.Status, o.By, o.Secs, o.Detail, o.Pos, o.Props})
	}
	delete(sv.stats, "")
	rep.BackEnds = sv.stats
	rep.SolverSecs = sv.secs
	sl := append([]obRep{}, rep.Obligations...)
	sort.Slice(sl, func(i, j int) bool { return sl[i].Secs > sl[j].Secs })
	if len(sl) > 12 {
		sl = sl[:12]
	}
	rep.Slowest = sl
	rep.Trusted = sortedKeys(e.trustUsed)
	for n := range done {
		if c := db.C[n]; c != nil && c.NoTerm != "" {
			rep.Assumptions = append(rep.Assumptions, "termination of "+n+" is not proved: "+c.NoTerm)
		}
	}
	rep.Assumptions = append(rep.Assumptions, e.openCalls(done)...)
	sort.Strings(rep.Assumptions)
	rep.Assumptions = append(rep.Assumptions, db.Assumed...)
	if len(e.renamed) > 0 {
		rep.Assumptions = append(rep.Assumptions, "verified after renaming back to the names of the contracts: "+strings.Join(e.renamed, "; "))
	}
	if *smt != "" && !*keep {
		ms, _ := filepath.Glob(filepath.Join(dir, "*.cvc"))
		for _, m := range ms {
			os.Remove(m)
		}
	}
	finish()
}

// openCalls lists the calls of verified functions in code that is not verified: their preconditions are assumed.
func (e *Eng) openCalls(done map[string]bool) []string {
	name := map[*ssa.Function]string{}
	for n, f := range e.fnByName {
		name[f] = n
	}
	out := map[string]bool{}
	for caller, f := range e.fnByName {
		if c := e.db.C[caller]; c != nil && c.Trusted == "" && done[caller] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || !done[name[callee]] || !e.inModule(f) {
					continue
				}
				if c := e.db.C[name[callee]]; c != nil && len(c.Requires) > 0 {
					out["the precondition of "+name[callee]+" is not proved at its call in "+caller+" (it is evaluated by the bounded part)"] = true
				}
			}
		}
	}
	return sortedKeys(out)
}

func (db *SpecDB) deadOK(name string) bool { return false }

// speaksOf: does the contract carry obligations of the property?
func (c *Contract) speaksOf(p string) bool {
	if contains(c.Props, p) {
		return true
	}
	for _, l := range [][]Clause{c.Requires, c.Ensures} {
		for _, cl := range l {
			if contains(cl.Props, p) {
				return true
			}
		}
	}
	for _, lp := range c.Loops {
		for _, cl := range lp.Inv {
			if contains(cl.Props, p) {
				return true
			}
		}
	}
	return false
}
