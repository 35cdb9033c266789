package main

// SMT scripts and solver dispatch.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	satomic "sync/atomic"
	"time"
)

const prelude = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(declare-sort Str 0)
(declare-sort Any 0)
(declare-sort Flt 0)
(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (elem (earr Int) (eidx Int)) (fld (fbase Ref) (ftag Int)))))
(declare-fun root (Ref) Int)
(assert (= (root null) 0))
(assert (forall ((i Int)) (! (= (root (obj i)) i) :pattern ((root (obj i))))))
(assert (forall ((a Int) (i Int)) (! (= (root (elem a i)) a) :pattern ((root (elem a i))))))
(assert (forall ((r Ref) (t Int)) (! (= (root (fld r t)) (root r)) :pattern ((fld r t)))))
(declare-fun own (Ref) Ref)
(assert (= (own null) null))
(assert (forall ((i Int)) (! (= (own (obj i)) (obj i)) :pattern ((own (obj i))))))
(assert (forall ((a Int) (i Int)) (! (= (own (elem a i)) (elem a i)) :pattern ((own (elem a i))))))
(assert (forall ((r Ref) (t Int)) (! (= (own (fld r t)) (own r)) :pattern ((fld r t)))))
(assert (forall ((r Ref)) (! (and (not ((_ is fld) (own r))) (= (root (own r)) (root r)) (=> ((_ is elem) (own r)) (= (root r) (earr (own r)))) (=> ((_ is obj) (own r)) (= (root r) (oid (own r))))) :pattern ((own r)))))
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(declare-const cnt0 Int)
(assert (>= cnt0 1))
(declare-const nilAny Any)
(declare-const fltZero Flt)
(declare-fun tagof (Any) Int)
(assert (= (tagof nilAny) 0))
`

var preludeOpt = []struct{ sym, text string }{
	{"strlen", `(declare-fun strlen (Str) Int)
(assert (forall ((s Str)) (! (and (<= 0 (strlen s)) (=> (= (strlen s) 0) (= s str_empty))) :pattern ((strlen s)))))
(assert (= (strlen str_empty) 0))`},
	{"strat", `(declare-fun strat (Str Int) Int)
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (strat s i)) (< (strat s i) 256)) :pattern ((strat s i)))))`},
	{"substr", `(declare-fun substr (Str Int Int) Str)`},
	{"strcat", `(declare-fun strcat (Str Str) Str)
(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))
(declare-fun strafter (Str Str) Str)
(assert (forall ((a Str) (b Str)) (! (= (strafter a (strcat a b)) b) :pattern ((strcat a b)))))`},
	{"lower", `(declare-fun lower (Str) Str)
(assert (forall ((s Str)) (! (= (lower (lower s)) (lower s)) :pattern ((lower s)))))`},
	{"fold", `(declare-fun fold (Str) Str)`},
	{"itoa", `(declare-fun itoa (Int) Str)
(declare-fun unitoa (Str) Int)
(assert (forall ((i Int)) (! (and (= (unitoa (itoa i)) i) (not (= (itoa i) str_empty))) :pattern ((itoa i)))))`},
	{"runestr", `(declare-fun runestr (Int) Str)`},
	{"b64", `(declare-fun b64 (Str) Str)
(declare-fun unb64 (Str) Str)
(declare-fun nodot (Str) Bool)
(declare-fun dotl (Str) Str)
(declare-fun dotr (Str) Str)
(assert (forall ((s Str)) (! (and (= (unb64 (b64 s)) s) (nodot (b64 s))) :pattern ((b64 s)))))
(assert (forall ((s Str)) (! (= (strcat str_empty s) s) :pattern ((strcat str_empty s)))))
(assert (forall ((a Str) (b Str)) (! (=> (nodot b) (and (= (dotl (strcat (strcat a str_dot) b)) a) (= (dotr (strcat (strcat a str_dot) b)) b) (not (nodot (strcat (strcat a str_dot) b))))) :pattern ((strcat (strcat a str_dot) b)))))`},
	{"bytestr", `(declare-fun bytestr (Int) Str)`},
}

var constRe = regexp.MustCompile(`@\w+@`)

func words(s string, f func(string)) {
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '(' || c == ')' || c == '\n':
			i++
		case c == '|':
			j := i + 1
			for s[j] != '|' {
				j++
			}
			f(s[i : j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '\n' {
				j++
			}
			f(s[i:j])
			i = j
		}
	}
}

func (it *item) wordSet() []string {
	if it.ws == nil {
		m := map[string]bool{}
		words(it.text, func(w string) { m[w] = true })
		it.ws = sortedKeys(m)
		if len(it.ws) == 0 {
			it.ws = []string{""}
		}
	}
	return it.ws
}

// script builds the SMT script of an obligation. Only definitions and assumptions
// made before it are used; assumptions with a key are used when the key is needed.
func (x *Exec) script(o *Oblig) string {
	return x.script1(o, nil)
}

// focus is the script with the assumptions from the clauses that are named only.
func (x *Exec) focus(o *Oblig) string {
	use := map[string]bool{}
	for _, n := range o.using {
		use[n] = true
	}
	drop := map[int]bool{}
	text := o.Goal
	for i := 0; i < o.at && i < len(x.items); i++ {
		it := &x.items[i]
		switch {
		case it.kind == 'd' || strings.HasPrefix(it.tag, "unfold "):
		case it.kind == 'o':
			drop[i] = true
		case it.tag != "":
			if use[it.tag] {
				text += " " + it.text
			} else {
				drop[i] = true
			}
		case !use["frames"] && strings.Contains(it.text, "(forall "):
			drop[i] = true
		}
	}
	for i := range x.items {
		if t := x.items[i].tag; strings.HasPrefix(t, "unfold ") && !use["unfold"] && !strings.Contains(text, t[7:]) {
			drop[i] = true
		}
	}
	return x.script1(o, drop)
}

func (x *Exec) script1(o *Oblig, drop map[int]bool) string {
	need := map[string]bool{}
	var queue []string
	add := func(w string) {
		if !need[w] {
			need[w] = true
			queue = append(queue, w)
		}
	}
	words(o.Guard, add)
	words(o.Goal, add)
	defs := x.defIdx()
	byKey := x.keyIdx()
	take := map[int]bool{}
	takeItem := func(i int) {
		if i >= o.at || take[i] || drop[i] {
			return
		}
		take[i] = true
		for _, w := range x.items[i].wordSet() {
			add(w)
		}
	}
	for i := 0; i < o.at && i < len(x.items); i++ {
		if x.items[i].kind == 'a' && x.items[i].key == "" {
			takeItem(i)
		}
		if x.items[i].kind == 'o' && x.items[i].ob.Kind == "assert" {
			takeItem(i)
		}
	}
	lemmaTaken := map[int]bool{}
	for {
		for len(queue) > 0 {
			w := queue[len(queue)-1]
			queue = queue[:len(queue)-1]
			if i, ok := defs[w]; ok {
				takeItem(i)
			}
			for _, i := range byKey[w] {
				takeItem(i)
			}
		}
		more := false
		for k, a := range x.lemAx {
			if lemmaTaken[k] {
				continue
			}
			ok := true
			for _, t := range a.trig {
				if !need[t] {
					ok = false
				}
			}
			if ok {
				lemmaTaken[k] = true
				more = true
				words(a.text, add)
			}
		}
		if !more && len(queue) == 0 {
			break
		}
	}
	var body bytes.Buffer
	for k, a := range x.lemAx {
		if lemmaTaken[k] {
			body.WriteString("; lemma " + a.name + "\n(assert " + a.text + ")\n")
		}
	}
	for i := 0; i < o.at && i < len(x.items); i++ {
		if !take[i] {
			continue
		}
		it := &x.items[i]
		if it.kind == 'd' {
			body.WriteString(it.text + "\n")
		} else {
			body.WriteString("(assert " + it.text + ")\n")
		}
	}
	if o.Vac {
		body.WriteString("(assert " + o.Guard + ")\n")
	} else {
		body.WriteString("(assert " + o.Guard + ")\n(assert (not " + o.Goal + "))\n")
	}
	body.WriteString("(check-sat)\n")

	var out bytes.Buffer
	out.WriteString(prelude)
	for _, s := range sortedKeys(x.e.sorts) {
		if need[s] || strings.Contains(strings.Join(x.front, " "), s) {
			fmt.Fprintf(&out, "(declare-sort %s 0)\n", s)
		}
	}
	// string constants
	var cs []string
	hasEmpty := false
	for _, s := range x.strOrder {
		if n := x.strs[s]; need[n] || n == "str_empty" {
			cs = append(cs, s)
			if s == "" {
				hasEmpty = true
			}
		}
	}
	if need["b64"] && !need["str_dot"] {
		x.strConst(".")
		cs = append(cs, ".")
	}
	if !hasEmpty {
		cs = append(cs, "")
		if x.strs[""] == "" {
			x.strs[""] = "str_empty"
		}
	}
	for _, s := range cs {
		fmt.Fprintf(&out, "(declare-const %s Str) ; %q\n", x.strs[s], s)
	}
	if len(cs) > 1 {
		out.WriteString("(assert (distinct")
		for _, s := range cs {
			out.WriteString(" " + x.strs[s])
		}
		out.WriteString("))\n")
	}
	for _, p := range preludeOpt {
		if need[p.sym] || p.sym == "strlen" || p.sym == "strcat" && need["b64"] {
			out.WriteString(p.text + "\n")
		}
	}
	for _, s := range cs {
		fmt.Fprintf(&out, "(assert (= (strlen %s) %d))\n", x.strs[s], len(s))
		if need["lower"] {
			l := strings.ToLower(s)
			if n, ok := x.strs[l]; ok && (need[n] || n == "str_empty") {
				fmt.Fprintf(&out, "(assert (= (lower %s) %s))\n", x.strs[s], n)
			}
		}
	}
	for _, s := range x.e.db.SMT {
		s = constRe.ReplaceAllStringFunc(s, func(m string) string {
			c := x.e.lookupConst(m[1:len(m)-1], nil)
			if c == nil {
				panic(fmt.Errorf("unknown constant %s in a contract file", m))
			}
			return x.constOf(c).L[0]
		})
		out.WriteString(s + "\n")
	}
	// front: declarations whose symbol is needed, assertions over needed symbols
	for i, f := range x.front {
		ws := x.frontWords(i)
		if strings.HasPrefix(f, "(declare") {
			if need[ws[0]] {
				out.WriteString(f + "\n")
			}
			continue
		}
		ok := true
		for _, w := range ws {
			if x.frontDecl[w] && !need[w] {
				ok = false
			}
		}
		if ok {
			out.WriteString(f + "\n")
		}
	}
	out.Write(body.Bytes())
	return out.String()
}

func (x *Exec) frontWords(i int) []string {
	if x.frontWs == nil {
		x.frontDecl = map[string]bool{}
		for _, f := range x.front {
			var ws []string
			words(f, func(w string) { ws = append(ws, w) })
			ws = ws[1:]
			if strings.HasPrefix(f, "(declare") {
				x.frontDecl[ws[0]] = true
			}
			x.frontWs = append(x.frontWs, ws)
		}
	}
	return x.frontWs[i]
}

func (x *Exec) defIdx() map[string]int {
	if x.defI == nil {
		x.defI = map[string]int{}
		for i, it := range x.items {
			if it.kind == 'd' {
				x.defI[it.sym] = i
			}
		}
	}
	return x.defI
}

func (x *Exec) keyIdx() map[string][]int {
	if x.keyI == nil {
		x.keyI = map[string][]int{}
		for i, it := range x.items {
			if it.kind == 'a' && it.key != "" {
				n := 0
				words(it.key, func(w string) {
					if _, ok := x.defIdx()[w]; ok {
						x.keyI[w] = append(x.keyI[w], i)
						n++
					}
				})
				if n == 0 {
					x.items[i].key = ""
				}
			}
		}
	}
	return x.keyI
}

type lemmaAxiom struct {
	name, text string
	trig       []string
}

// addLemmaAxioms: lemmas with triggers become axioms of the functions they speak about.
func (x *Exec) addLemmaAxioms(before string) {
	for _, n := range x.e.db.LemmaOrder {
		if n == before {
			return
		}
		lm := x.e.db.Lemmas[n]
		for _, pat := range lm.Auto {
			x.lemAx = append(x.lemAx, x.lemmaAxiom(lm, pat))
		}
	}
}

func (x *Exec) lemmaAxiom(lm *Lemma, pat []*Node) lemmaAxiom {
	x.termMode = true
	defer func() { x.termMode = false }()
	states := map[string]*State{}
	names := map[string]*Val{}
	type bv struct{ n, s string }
	var bvs []bv
	var def *State
	for _, p := range lm.Params {
		t, s := x.e.specType(p.Type, nil)
		v := &Val{T: t, S: s}
		if t != nil {
			for i, l := range x.e.leaves(t) {
				q := fmt.Sprintf("q!%s.%d", p.Name, i)
				v.L = append(v.L, q)
				bvs = append(bvs, bv{q, l.sort})
			}
		} else {
			q := "q!" + p.Name
			v.L = []string{q}
			bvs = append(bvs, bv{q, s})
		}
		if p.State != "" {
			if states[p.State] == nil {
				states[p.State] = &State{maps: map[string]string{}, cnt: "cnt0", pre: "q!" + p.State + "."}
			}
			v.St = states[p.State]
		}
		names[p.Name] = v
	}
	def = states["S"]
	if def == nil {
		def = &State{maps: map[string]string{}, cnt: "cnt0", pre: "q!S."}
		states["S"] = def
	}
	c := &SpecCtx{x: x, st: def, old: def, names: names, noUnfold: true}
	var rq, en, ps []string
	for _, r := range lm.Requires {
		rq = append(rq, x.evalBool(c, r))
	}
	for _, r := range lm.Ensures {
		en = append(en, x.evalBool(c, r))
	}
	for _, p := range pat {
		v := x.evalSpec(c, p)
		if v.Ref != "" {
			ps = append(ps, v.Ref)
		} else {
			ps = append(ps, v.L[0])
		}
	}
	for _, k := range sortedKeys(states) {
		st := states[k]
		for _, m := range sortedKeys(st.maps) {
			bvs = append(bvs, bv{st.maps[m], x.e.mapSort[m]})
		}
	}
	body := imp(and(rq...), and(en...))
	used := map[string]bool{}
	words(body, func(w string) { used[w] = true })
	inPat := map[string]bool{}
	for _, p := range ps {
		words(p, func(w string) { inPat[w] = true; used[w] = true })
	}
	var decl []string
	for _, b := range bvs {
		if used[b.n] {
			if !inPat[b.n] {
				panic(fmt.Errorf("lemma %s: %s is not in the pattern", lm.Name, b.n))
			}
			decl = append(decl, "("+b.n+" "+b.s+")")
		}
	}
	a := lemmaAxiom{name: lm.Name, text: fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(decl, " "), body, strings.Join(ps, " "))}
	for w := range inPat {
		if strings.HasPrefix(w, "fn.") || strings.HasPrefix(w, "|fn.") {
			a.trig = append(a.trig, w)
		}
	}
	sort.Strings(a.trig)
	return a
}

// ---------------------------------------------------------------- solvers

type attempt struct {
	by   string
	args []string
	cvc  bool
	secs int
}

type Solver struct {
	dir   string
	seed  int
	plan  [][]attempt
	stats map[string]int
	secs  float64
	mu    sync.Mutex
	keep  bool
	// When many obligations fail, the later ones are tried for a short time only.
	maxHard  int
	split    []attempt
	sem      chan struct{} // one token per running solver
	deadline time.Time
	nfail    int
}

func (s *Solver) failed() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.nfail
}

func z3(bin string, secs int, opts ...string) attempt {
	if bin == "z3-new+" {
		bin = "z3-new"
	} else if bin == "z3-new" {
		// definitions by cases must stay visible to the patterns
		opts = append([]string{"smt.solve_eqs=false"}, opts...)
	}
	return attempt{by: bin, args: append([]string{bin, fmt.Sprintf("-T:%d", secs), "-smt2"}, opts...), secs: secs}
}

func cvc5(secs int, opts ...string) attempt {
	return attempt{by: "cvc5", args: append([]string{"cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2"}, opts...), cvc: true, secs: secs}
}

func (s *Solver) try(file string, a attempt) (string, float64) {
	f := file
	if a.cvc {
		f += ".cvc"
		if _, err := os.Stat(f); err != nil {
			b, _ := os.ReadFile(file)
			t := strings.ReplaceAll(strings.ReplaceAll(string(b), "(set-option :auto_config false)\n", ""), "(set-option :smt.mbqi false)\n", "")
			os.WriteFile(f, []byte("(set-logic ALL)\n"+t), 0o644)
		}
	}
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(a.secs+3)*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, a.args[0], append(append([]string{}, a.args[1:]...), f)...)
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0).Seconds()
	s.mu.Lock()
	s.secs += d
	s.mu.Unlock()
	var keep []string
	for _, l := range strings.Split(string(out), "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
			keep = append(keep, l)
		}
	}
	t := strings.Join(keep, "\n")
	if strings.Contains(t, "error") && !strings.HasPrefix(t, "unsat") {
		return "error: " + firstLine(t), d
	}
	return firstLine(t), d
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func fileName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '_' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func (s *Solver) solve(o *Oblig, plan [][]attempt) {
	file := filepath.Join(s.dir, fileName(o.Name)+".smt2")
	if len(file) > 240 {
		file = file[:200] + fmt.Sprintf("%x", hash(o.Name)) + ".smt2"
	}
	text := "; " + o.Name + "\n" + o.text
	os.WriteFile(file, []byte(text), 0o644)
	o.text = ""
	var det []string
	o.Status = "unknown"
	if o.focus != "" {
		f := strings.TrimSuffix(file, ".smt2") + ".focus.smt2"
		os.WriteFile(f, []byte(o.focus), 0o644)
		for _, a := range []attempt{z3("z3-new+", 3, "smt.case_split=3", "smt.arith.solver=2"), z3("z3-new", 6), z3("z3-new", 12, "smt.case_split=3")} {
			r, d := s.try(f, a)
			o.Secs += d
			det = append(det, "focus: "+r)
			if r == "unsat" {
				o.Status, o.By = "proved", "z3-new"
				plan = nil
				det = nil
				break
			}
		}
		o.focus = ""
		if !s.keep {
			os.Remove(f)
		}
	}
	if !o.Vac && plan != nil {
		ok, d := s.trySlim(file, text, 3)
		o.Secs += d
		if ok {
			o.Status, o.By = "proved", "z3-new"
			plan = nil
		}
	}
	for si, stage := range plan {
		if si > 0 && (s.failed() >= s.maxHard || time.Now().After(s.deadline)) {
			det = append(det, "no further attempts: several obligations are open already")
			break
		}
		if si == 1 && len(o.Splits) > 1 {
			if s.bySplit(o, file, text, &det) {
				break
			}
		}
		for _, a := range stage {
			r, d := s.try(file, a)
			o.Secs += d
			if r == "unsat" {
				o.Status, o.By = "proved", a.by
				if o.Vac {
					o.Status = "vacuous"
				}
				break
			}
			if r == "" {
				r = "timeout"
			}
			det = append(det, fmt.Sprintf("%s: %s (%.1fs)", strings.Join(a.args[:1], " "), r, d))
			if strings.HasPrefix(r, "error") {
				o.Status = "error"
			}
			if o.Vac && (r == "sat" || r == "unknown" || r == "timeout") {
				o.Status = "reachable"
				break
			}
		}
		if o.Status == "proved" || o.Status == "vacuous" || o.Status == "reachable" {
			break
		}
	}
	o.Detail = strings.Join(det, "; ")
	if !s.keep && (o.Status == "proved" || o.Status == "reachable") {
		os.Remove(file)
		os.Remove(file + ".cvc")
	}
	s.mu.Lock()
	s.stats[o.By]++
	if o.Status != "proved" && o.Status != "reachable" {
		s.nfail++
	}
	s.mu.Unlock()
}

var compRe = regexp.MustCompile(`(?:^|[ (])(?:[A-Za-z]\w*\.)+?([FCM]\.[\w.]+)`)

// slim drops the quantified assumptions about parts of the memory that the goal does not mention.
// Fewer assumptions can only make a proof fail, so an unsat answer stands.
func slim(text string) (string, bool) {
	lines := strings.Split(text, "\n")
	goal := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "(assert (not ") {
			goal = i
		}
	}
	if goal < 0 {
		return "", false
	}
	want := map[string]bool{}
	for _, l := range lines[goal:] {
		for _, m := range compRe.FindAllStringSubmatch(l, -1) {
			want[m[1]] = true
		}
	}
	out := lines[:0:0]
	drop := 0
next:
	for i, l := range lines {
		if i < goal && strings.HasPrefix(l, "(assert") && strings.Contains(l, "(forall ") {
			for _, m := range compRe.FindAllStringSubmatch(l, -1) {
				if !want[m[1]] {
					drop++
					continue next
				}
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n"), drop >= 4
}

// trySlim is the first attempt on every obligation.
func (s *Solver) trySlim(file, text string, secs int, opts ...string) (bool, float64) {
	t, ok := slim(text)
	if !ok {
		return false, 0
	}
	f := strings.TrimSuffix(file, ".smt2") + ".slim.smt2"
	os.WriteFile(f, []byte(t), 0o644)
	// with few assumptions, splitting on the cases in a fixed order is fastest, and answers unknown at once when too much was dropped
	r, d := s.try(f, z3("z3-new+", 2, append([]string{"smt.case_split=3", "smt.arith.solver=2"}, opts...)...))
	if r != "unsat" && r != "unknown" {
		var d2 float64
		r, d2 = s.try(f, z3("z3-new", secs, opts...))
		d += d2
	}
	if r == "unsat" || !s.keep {
		os.Remove(f)
	}
	return r == "unsat", d
}

// bySplit proves an obligation for each way control reaches it.
func (s *Solver) bySplit(o *Oblig, file, text string, det *[]string) bool {
	type res struct {
		r, by string
		secs  float64
	}
	out := make([]res, len(o.Splits))
	var wg sync.WaitGroup
	var stop satomic.Bool
	for i, c := range o.Splits {
		wg.Add(1)
		go func(i int, c string) {
			defer wg.Done()
			f := fmt.Sprintf("%s.%d.smt2", strings.TrimSuffix(file, ".smt2"), i)
			t := strings.Replace(text, "(check-sat)\n", "(assert "+c+")\n(check-sat)\n", 1)
			os.WriteFile(f, []byte(t), 0o644)
			q := &out[i]
			ok, d := s.trySlim(f, t, 6)
			q.secs += d
			if ok {
				q.r, q.by = "unsat", "z3-new"
				if !s.keep {
					os.Remove(f)
				}
				return
			}
			for _, a := range s.split {
				if stop.Load() && !s.keep {
					return
				}
				var d float64
				q.r, d = s.try(f, a)
				q.secs += d
				if q.r == "unsat" {
					q.by = a.by
					if !s.keep {
						os.Remove(f)
						os.Remove(f + ".cvc")
					}
					return
				}
			}
			stop.Store(true)
		}(i, c)
	}
	wg.Wait()
	ok := true
	for i, q := range out {
		o.Secs += q.secs
		if q.r == "unsat" {
			o.By = q.by
			continue
		}
		ok = false
		if q.r == "" {
			q.r = "timeout"
		}
		*det = append(*det, fmt.Sprintf("path %d: %s", i, q.r))
	}
	if ok {
		o.Status = "proved"
	} else {
		o.By = ""
	}
	return ok
}

func hash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func (s *Solver) all(obs []*Oblig, workers int) {
	os.MkdirAll(s.dir, 0o755)
	ch := make(chan *Oblig)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				p := s.plan
				if o.Vac {
					p = [][]attempt{{z3("z3-new", 2)}}
				}
				s.solve(o, p)
			}
		}()
	}
	for _, o := range obs {
		o.text = o.x.script(o)
		if len(o.using) > 0 {
			o.focus = o.x.focus(o)
		}
		ch <- o
	}
	close(ch)
	wg.Wait()
}
