package parser_test

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// safeParse calls the parser; a panic or a run of more than 20 s is reported as text.
func safeParse(s string) (q *types.SoqlQuery, err error, bad string) {
	type res struct {
		q   *types.SoqlQuery
		err error
		bad string
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				r.bad = fmt.Sprintf("panic: %v", p)
			}
			ch <- r
		}()
		r.q, r.err = parser.Parse(s)
	}()
	select {
	case r := <-ch:
		if r.bad == "" && (r.q == nil) == (r.err == nil) {
			r.bad = "result and error are both set or both nil"
		}
		return r.q, r.err, r.bad
	case <-time.After(20 * time.Second):
		return nil, nil, "no result after 20 s"
	}
}

// The input being parsed, for the watchdog and for the driver (when the process dies).
var (
	vCurMu    sync.Mutex
	vCurText  string
	vCurStart time.Time
	vTrace    *os.File
)

func enter(s string) {
	if vTrace == nil {
		if f := os.Getenv("VERIF_TRACE"); f != "" {
			vTrace, _ = os.Create(f)
		}
	}
	if vTrace != nil {
		vTrace.WriteAt([]byte(fmt.Sprintf("%10d", len(s))+s), 0)
	}
	vCurMu.Lock()
	vCurText, vCurStart = s, time.Now()
	vCurMu.Unlock()
}

func leave() {
	vCurMu.Lock()
	vCurStart = time.Time{}
	vCurMu.Unlock()
}

// watch ends the process when one call takes more than 20 s or the heap passes 8 GB.
func (v *vRun) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		vCurMu.Lock()
		in, t0 := vCurText, vCurStart
		vCurMu.Unlock()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 1200<<20 {
			// The grammar of the parser unfolds lazily and is kept: start again in a new process.
			v.full.Store(true)
		}
		if t0.IsZero() {
			continue
		}
		if d := time.Since(t0); d > 20*time.Second || (d > 3*time.Second && ms.HeapAlloc > 5<<30) {
			what := fmt.Sprintf("no result after %.0f s (heap %d MB)", time.Since(t0).Seconds(), ms.HeapAlloc>>20)
			if v.prop == "C01" {
				v.rep.Findings = append(v.rep.Findings, vFinding{v.prop, in, "", what, "parse"})
			}
			v.rep.Stopped = what
			v.write()
			os.Exit(0)
		}
	}
}

func parseFast(s string) (q *types.SoqlQuery, err error, bad string) {
	enter(s)
	defer func() {
		leave()
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	q, err = parser.Parse(s)
	if (q == nil) == (err == nil) {
		bad = "result and error are both set or both nil"
	}
	return
}

// guard turns a panic inside an oracle (a malformed result) into a finding.
func guard(f func() string) (e string) {
	defer func() {
		if p := recover(); p != nil {
			e = fmt.Sprintf("malformed result: %v", p)
		}
	}()
	return f()
}

type vFinding struct {
	Property string `json:"property"`
	Input    string `json:"input"`
	Input2   string `json:"input2,omitempty"`
	What     string `json:"what"`
	Kind     string `json:"kind"`
}

type vReport struct {
	Property    string     `json:"property"`
	Evaluations int        `json:"evaluations"`
	Distinct    int        `json:"distinct_nontrivial"`
	Accepted    int        `json:"accepted"`
	Rejected    int        `json:"rejected"`
	Samples     []string   `json:"samples"`
	Findings    []vFinding `json:"findings"`
	Seconds     float64    `json:"seconds"`
	Stopped     string     `json:"stopped,omitempty"`
}

var vStruct = map[string]func(q *types.SoqlQuery) string{
	"C01": oC01, "C04": oC04, "C05": oC05, "C06": oC06, "C07": oC07, "C08": oC08, "C09": oC09, "C10": oC10s, "C11": oC11, "C14": oC14, "C15": oC15, "C17": oC17,
}
var vModel = map[string]func(m *vQuery, q *types.SoqlQuery) string{
	"C02": mC02, "C03": mC03, "C10": mC10, "C12": mC12, "C14": mC14, "C15": mC15,
}

type vRun struct {
	t     *testing.T
	prop  string
	g     *vGen
	rep   vReport
	seen  map[uint64]bool
	end   time.Time
	max   int
	start time.Time
	full  atomic.Bool
}

func (v *vRun) count(s string, accepted bool) {
	v.rep.Evaluations++
	h := fnv.New64a()
	h.Write([]byte(s))
	if k := h.Sum64(); !v.seen[k] {
		v.seen[k] = true
		if accepted {
			v.rep.Distinct++
		}
	}
	if accepted {
		v.rep.Accepted++
	} else {
		v.rep.Rejected++
	}
	if accepted && len(v.rep.Samples) < 4 && len(s) < 400 && v.rep.Evaluations%7 == 3 {
		v.rep.Samples = append(v.rep.Samples, s)
	}
}

func (v *vRun) fail(in, in2, kind, what string) {
	for _, f := range v.rep.Findings {
		if f.What == what {
			return
		}
	}
	if len(v.rep.Findings) < 20 {
		v.rep.Findings = append(v.rep.Findings, vFinding{v.prop, in, in2, what, kind})
	}
}

func (v *vRun) done() bool {
	return len(v.rep.Findings) >= 5 || v.full.Load() || time.Now().After(v.end) || (v.max > 0 && v.rep.Evaluations >= v.max)
}

// check runs the oracles of the property on one generated query.
func (v *vRun) check(m *vQuery, toks []vTok) {
	s := v.g.render(toks, v.g.n(2))
	q, err, bad := parseFast(s)
	v.count(s, err == nil && bad == "")
	if bad != "" {
		if v.prop == "C01" {
			v.fail(s, "", "parse", bad)
		}
		return
	}
	if err != nil {
		// The generator only writes queries of the documented language.
		if v.mustAccept() {
			v.fail(s, "", "rejected", "a valid query is rejected: "+firstLine(err.Error()))
		}
		return
	}
	if f := vStruct[v.prop]; f != nil {
		if e := guard(func() string { return f(q) }); e != "" {
			v.fail(s, "", "struct", e)
		}
	}
	if f := vModel[v.prop]; f != nil {
		if e := guard(func() string { return f(m, q) }); e != "" {
			v.fail(s, "", "model", e)
		}
	}
	if v.prop == "C14" && q.Meta.Source != s {
		v.fail(s, "", "model", "recorded source differs from the input")
	}
}

// Properties whose statement says that valid text is recorded in some way also fail if it is rejected.
func (v *vRun) mustAccept() bool {
	switch v.prop {
	case "C02", "C03", "C10", "C12", "C13", "C14", "C15", "C17":
		return true
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (v *vRun) genQuery() (*vQuery, []vTok) {
	v.g.depth = v.g.n(4)
	v.g.aliasNo = 0
	v.g.dead = v.g.dead[:0]
	v.g.nan = v.prop == "C03"
	m := v.g.genQuery(nil, 0)
	return m, v.g.tokens(m)
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip()
	}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, prop, f)
		return
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	if secs == 0 {
		secs = 10
	}
	max, _ := strconv.Atoi(os.Getenv("VERIF_MAX"))
	start := time.Now()
	v := &vRun{t: t, prop: prop, g: &vGen{r: rand.New(rand.NewSource(seed*1000003 + 17))}, seen: map[uint64]bool{}, max: max, start: start,
		end: start.Add(time.Duration(secs * float64(time.Second)))}
	v.rep.Property = prop
	go v.watch()
	v.fixed()
	special := map[string]func(){"C01": v.runC01, "C03": v.runC03, "C13": v.runC13, "C15": v.runC15, "C16": v.runC16, "C17": v.runC17, "C18": v.runC18}[prop]
	if w := os.Getenv("VERIF_WORKER"); (w == "" || w == "0") && (prop == "C02" || prop == "C04" || prop == "C05" || prop == "C06") {
		v.exhaustive()
	}
	for i := 0; !v.done(); i++ {
		if special != nil && (prop == "C03" && i%8 == 1 || prop != "C03" && i%2 == 1) {
			special()
			continue
		}
		if (prop == "C01" || vStruct[prop] != nil) && i%5 == 4 {
			v.wild()
			continue
		}
		if vStruct[prop] != nil && i%10 == 8 {
			v.structText(v.pathQuery())
			continue
		}
		m, toks := v.genQuery()
		v.check(m, toks)
	}
	for i := range v.rep.Findings {
		v.shrink(&v.rep.Findings[i])
	}
	v.write()
}

func (v *vRun) write() {
	v.rep.Seconds = time.Since(v.start).Seconds()
	j, _ := json.MarshalIndent(&v.rep, "", " ")
	if err := os.WriteFile(os.Getenv("VERIF_OUT"), j, 0o644); err != nil {
		panic(err)
	}
}

// judge re-evaluates a finding that needs only its inputs. Used for replay and shrinking.
func judge(prop, kind, in, in2 string) string {
	q, err, bad := safeParse(in)
	switch kind {
	case "parse":
		return bad
	case "struct":
		if bad != "" || err != nil {
			return ""
		}
		return guard(func() string { return vStruct[prop](q) })
	case "rejected":
		if err != nil {
			return "a valid query is rejected: " + firstLine(err.Error())
		}
		return bad
	case "accepted":
		if bad == "" && err == nil {
			return "accepted"
		}
		return ""
	case "pair":
		q2, err2, bad2 := safeParse(in2)
		if bad != "" || bad2 != "" {
			return bad + bad2
		}
		return pairDiff(q, err, q2, err2)
	case "position":
		return positionOf(in, err)
	}
	return ""
}

func replay(t *testing.T, prop, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var f vFinding
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatal(err)
	}
	fmt.Printf("property %s\ninput    %q\n", f.Property, f.Input)
	if f.Input2 != "" {
		fmt.Printf("input 2  %q\n", f.Input2)
	}
	fmt.Println("recorded", f.What)
	if f.Kind != "model" {
		if e := judge(prop, f.Kind, f.Input, f.Input2); e != "" {
			t.Fatal("reproduced: " + e)
		}
		fmt.Println("not reproduced")
		return
	}
	q, err2, bad := safeParse(f.Input)
	fmt.Println("error", err2, bad)
	if q != nil {
		j, _ := json.MarshalIndent(q, "", " ")
		fmt.Println(string(j))
	}
}

var vWordRe = regexp.MustCompile(`\s+|[A-Za-z0-9_$]+|.`)

// shrink drops pieces of the text while the finding stays (struct and parse findings only).
func (v *vRun) shrink(f *vFinding) {
	if f.Kind != "struct" && f.Kind != "parse" {
		return
	}
	end := time.Now().Add(2 * time.Second)
	ws := vWordRe.FindAllString(f.Input, -1)
	for size := len(ws) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(ws) && time.Now().Before(end); {
			c := append(append([]string{}, ws[:i]...), ws[i+size:]...)
			if e := judge(f.Property, f.Kind, strings.Join(c, ""), ""); e != "" {
				ws = c
				f.What = e
			} else {
				i++
			}
		}
	}
	f.Input = strings.Join(ws, "")
}

// ---------------------------------------------------------------- exhaustive small conditions

// exhaustive enumerates all WHERE trees with up to 4 comparisons over and/or, all parenthesisations,
// NOT on up to two nodes, and comparisons on up to 3 objects, and checks the property on each.
func (v *vRun) exhaustive() {
	head := vObj{parts: []string{"Contact"}, fqn: []string{"contact"}}
	mk := func(obj, i int) *vCond {
		var n vName
		f := "f" + strconv.Itoa(i)
		switch obj {
		case 0:
			n = vName{parts: []string{f}, fqn: []string{"contact", f}}
		case 1:
			n = vName{parts: []string{"Acct", f}, fqn: []string{"contact", "acct", f}}
		case 2:
			n = vName{parts: []string{"Owner", f}, fqn: []string{"contact", "owner", f}}
		case 3:
			return &vCond{op: "cmp", cmp: "=", a: &vOperand{kind: types.SoqlFieldInfo_Function, fn: "fn", args: []*vOperand{{kind: types.SoqlFieldInfo_Field, name: vName{parts: []string{f}, fqn: []string{"contact", f}}}}}, b: lit(types.SoqlFieldInfo_Literal_Int, int64(i), strconv.Itoa(i))}
		}
		return &vCond{op: "cmp", cmp: "=", a: &vOperand{kind: types.SoqlFieldInfo_Field, name: n}, b: lit(types.SoqlFieldInfo_Literal_Int, int64(i), strconv.Itoa(i))}
	}
	maxLeaves := 4
	var shapes func(n, from int) [][]string // postfix shape strings are overkill; build trees directly
	_ = shapes
	var trees func(objs []int, base int) []*vCond
	trees = func(objs []int, base int) []*vCond {
		if len(objs) == 1 {
			return []*vCond{mk(objs[0], base)}
		}
		var out []*vCond
		for k := 1; k < len(objs); k++ {
			for _, l := range trees(objs[:k], base) {
				for _, r := range trees(objs[k:], base+k) {
					for _, op := range []string{"and", "or"} {
						out = append(out, &vCond{op: op, l: l, r: r})
					}
				}
			}
		}
		return out
	}
	run := func(c *vCond) {
		q := &vQuery{from: []vObj{head}, objs: map[string]bool{}, where: c,
			items: []vItem{{o: &vOperand{kind: types.SoqlFieldInfo_Field, name: vName{parts: []string{"Id"}, fqn: []string{"contact", "id"}}}}}}
		p := &vPrinter{g: v.g}
		p.query(q)
		s := v.g.render(p.toks, 0)
		r, err, bad := parseFast(s)
		v.count(s, err == nil && bad == "")
		if bad != "" || err != nil {
			if v.mustAccept() && err != nil {
				v.fail(s, "", "rejected", "a valid query is rejected: "+firstLine(err.Error()))
			}
			return
		}
		if f := vStruct[v.prop]; f != nil {
			if e := guard(func() string { return f(r) }); e != "" {
				v.fail(s, "", "struct", e)
			}
		}
		if f := vModel[v.prop]; f != nil {
			if e := guard(func() string { return f(q, r) }); e != "" {
				v.fail(s, "", "model", e)
			}
		}
	}
	for n := 1; n <= maxLeaves; n++ {
		objs := make([]int, n)
		nobj := 3
		if n <= 3 {
			nobj = 4
		}
		if v.prop == "C02" {
			nobj = 1
		}
		for {
			for _, t := range trees(objs, 0) {
				// NOT at no node, each node, each pair of nodes (pairs for up to 3 leaves)
				var nodes []*vCond
				var col func(c *vCond)
				col = func(c *vCond) {
					nodes = append(nodes, c)
					if c.l != nil {
						col(c.l)
						col(c.r)
					}
				}
				col(t)
				run(t)
				lim := len(nodes)
				if v.prop != "C02" && n == 4 {
					lim = 2
				}
				for i := 0; i < lim; i++ {
					run(withNot(t, nodes[i], nil))
					if n <= 3 || v.prop == "C02" {
						for j := i + 1; j < len(nodes); j++ {
							run(withNot(t, nodes[i], nodes[j]))
						}
					}
				}
				if len(v.rep.Findings) >= 5 {
					return
				}
			}
			k := 0
			for k < n {
				objs[k]++
				if objs[k] < nobj {
					break
				}
				objs[k] = 0
				k++
			}
			if k == n {
				break
			}
		}
	}
}

func withNot(t, a, b *vCond) *vCond {
	var c vCond = *t
	if t.l != nil {
		c.l = withNot(t.l, a, b)
		if t.r != nil {
			c.r = withNot(t.r, a, b)
		}
	}
	if t == a || t == b {
		return &vCond{op: "not", l: &c}
	}
	return &c
}

// ---------------------------------------------------------------- wild inputs

var vWildWords = []string{"select", "from", "where", "group by", "having", "order by", "limit", "offset", "for update", "for view", "and", "or", "not", "(", ")", ",", ".", "=", "!=", "<", "in",
	"like", "'x'", "1", "-2", "1.5", "null", "true", ":p", "TODAY", "LAST_N_DAYS:3", "2020-01-02", "2020-01-02T03:04:05Z", "Contact", "c", "Id", "Name", "Account", "count(Id)", "count()", "f(x)", "fields(all)",
	"\"q n\"", "'", "\"", "/*", "*/", "--", "\n", "asc", "desc", "nulls last", "(select Id from Foos)", "c.Id", "Contact.Account.Name", "\\", "\x00", "\xff", "é", "includes", "('a','b')", "Infinity", "NaN", "0x1F", "expr0", "::", "99999999999999999999", "-Infinity", "f(", "f(1,:p)", "f(g(h(Id)))"}

// wildOperand is any operand of the grammar, whether it makes sense or not.
func (v *vRun) wildOperand(depth int, right bool) string {
	n := v.g.n(12)
	if !right && n >= 6 {
		n = v.g.n(6)
	}
	switch n {
	case 0, 1, 2:
		f := v.g.recase(v.g.pick("fields", "count", "count_distinct", "max", "f"))
		var a []string
		if depth > 0 {
			for k := v.g.n(4); k > 0; k-- {
				a = append(a, v.wildOperand(depth-1, v.g.p(40)))
			}
		}
		return f + "(" + strings.Join(a, ",") + ")"
	case 3, 4, 5:
		if v.g.p(15) { // through an alias in the middle of a path
			return v.g.pick("Contact.a.Name", "Contact.A.x", "c.a.Id", "a.Id", "y.z", "c.y.z", "Contact.x.y.Id", "Contact.c.Id", "Foos.x.Id", "f.f.Id")
		}
		var a []string
		for k := 1 + v.g.n(5); k > 0; k-- {
			a = append(a, v.g.pick("c", "Contact", "Account", "Acct", "Id", "Name", "Owner", "x", "Foos", "a", "y", "f", "\"\"", "\"a.b\""))
		}
		if len(a) > 3 && v.g.p(60) {
			a = a[:2]
		}
		return strings.Join(a, ".")
	case 6:
		if depth <= 0 {
			return "null"
		}
		return "(" + v.wildQuery(depth-1) + ")"
	case 7:
		return "(" + v.g.pick("1", "'a'", ":p", "null", "TODAY", "1.5", "LAST_N_DAYS:0") + v.g.pick("", ",'b'", ",:Q,NEXT_YEAR") + ")"
	}
	return v.g.pick("1", "'a'", "''", ":p", "null", "true", "TODAY", "1.5", "LAST_N_DAYS:3", "2020-01-02", "2020-01-02T03:04:05Z", "03:04", "-0", "0x1F")
}

func (v *vRun) wildCond(depth int) string {
	op := v.g.pick("=", "!=", "<", "<=", ">", ">=", "like", "not like", "in", "not in", "includes", "excludes")
	s := v.wildOperand(depth, false) + " " + op + " " + v.wildOperand(depth, true)
	for v.g.p(40) {
		switch v.g.n(4) {
		case 0:
			s = "not (" + s + ")"
		case 1:
			s = "(" + s + ") and " + v.wildCond(0)
		case 2:
			s = "(" + s + ") or " + v.wildCond(0)
		default:
			s = "not " + v.wildCond(0) + " or " + s
		}
	}
	return s
}

// wildQuery has the form of a query, with items, objects and operands in any combination.
func (v *vRun) wildQuery(depth int) string {
	var items []string
	for k := 1 + v.g.n(3); k > 0; k-- {
		it := v.wildOperand(depth, false)
		if v.g.p(30) {
			it = v.g.pick("Name", "Id", "c.Name", "Account.Name", "expr0")
		}
		if depth > 0 && v.g.p(20) {
			it = "(" + v.wildQuery(depth-1) + ")"
		}
		items = append(items, it+v.g.pick("", "", "", " c", " Name", " expr0"))
	}
	s := "select " + strings.Join(items, ", ") + " from " + v.g.pick("Contact c", "Contact", "Foos f", "Foos", "c.Foos x", "Account", "Contact.Foos")
	for v.g.p(25) {
		s += ", " + v.g.pick("Contact.Account a", "Contact.Account a", "c.Account a", "c.Owner", "Account.x y", "Owner c", "c", "Contact d", "a.b.c d")
	}
	if v.g.p(60) {
		s += " where " + v.wildCond(depth)
	}
	if v.g.p(25) {
		s += " group by " + v.g.pick("Id", "Name", "c", "Account.Name", "Name, Id", "c.Owner.Id, Name", "expr0")
		if v.g.p(50) {
			s += " having " + v.wildCond(depth)
		}
	}
	if v.g.p(10) {
		s += " order by "
		for k := 1 + v.g.n(8); k > 0; k-- {
			s += "o" + strconv.Itoa(k) + ", "
		}
		s += "Id"
	} else if v.g.p(25) {
		s += " order by " + v.g.pick("Id", "Name desc", "c", "Account.Name", "Name, Id nulls last", "c.Owner.Id, Name", "expr0", "Contact.Foos.x")
	}
	return s + v.g.pick("", "", "", " limit 1", " offset :p limit :q", " for view", " limit -1 offset 0 for update")
}

func (v *vRun) wildText() string {
	if v.g.p(20) {
		return v.wildQuery(2)
	}
	switch v.g.n(4) {
	case 0:
		n := v.g.n(25)
		var b []string
		if v.g.p(70) {
			b = append(b, "select Id from Contact")
		}
		for i := 0; i < n; i++ {
			b = append(b, vWildWords[v.g.n(len(vWildWords))])
		}
		return strings.Join(b, " ")
	case 1: // random bytes
		n := v.g.n(30)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(v.g.n(256))
		}
		return v.g.pick("", "select ", "select Id from C where a = '") + string(b)
	}
	_, toks := v.genQuery()
	n := len(toks)
	if v.g.p(50) {
		// names of other objects, queries and clauses
		var names []int
		for i, t := range toks {
			if t.k == tName {
				names = append(names, i)
			}
		}
		if len(names) > 1 {
			toks = append([]vTok{}, toks...)
			for k := 1 + v.g.n(3); k > 0; k-- {
				toks[names[v.g.n(len(names))]] = toks[names[v.g.n(len(names))]]
			}
			if v.g.p(60) {
				return v.g.render(toks, 0)
			}
		}
	}
	for k := 1 + v.g.n(3); k > 0 && n > 2; k-- {
		i := v.g.n(n)
		switch v.g.n(4) {
		case 0:
			toks = append(append([]vTok{}, toks[:i]...), toks[i+1:]...)
		case 1:
			t := append([]vTok{}, toks[:i]...)
			t = append(t, vTok{tPunct, " " + vWildWords[v.g.n(len(vWildWords))] + " "})
			toks = append(t, toks[i:]...)
		case 2:
			j := v.g.n(n)
			toks = append([]vTok{}, toks...)
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			toks = append([]vTok{}, toks...)
			toks[i] = toks[v.g.n(n)]
		}
		n = len(toks)
	}
	return v.g.render(toks, 0)
}

// pathQuery refers to objects through aliases and names at any place of a path.
func (v *vRun) pathQuery() string {
	var al []string
	from := "Contact"
	if v.g.p(60) {
		from += " c"
		al = append(al, "c")
	}
	rels := []string{"Acct", "Owner", "Mgr"}
	name := func(last string) string {
		p := []string{}
		if v.g.p(50) {
			p = append(p, v.g.recase(v.g.pick("Contact", "Contact", "c")))
		}
		for k := v.g.n(3); k > 0; k-- {
			if len(al) > 0 && v.g.p(60) {
				p = append(p, v.g.recase(al[v.g.n(len(al))]))
			} else {
				p = append(p, v.g.recase(rels[v.g.n(len(rels))]))
			}
		}
		return strings.Join(append(p, last), ".")
	}
	for k := v.g.n(3); k > 0; k-- {
		o := name(rels[v.g.n(len(rels))])
		if v.g.p(70) {
			a := string(rune('k' + len(al)))
			o += " " + a
			al = append(al, a)
		}
		from += ", " + o
	}
	field := func() string { return name(v.g.pick("Id", "Name", "x")) }
	s := "select "
	for k := v.g.n(3); k > 0; k-- {
		s += v.g.pick(field(), "f("+field()+")") + ", "
	}
	if v.g.p(20) {
		s += "(select Id, " + field() + " from " + v.g.pick("Kids", "c.Kids", "Contact.Kids") + v.g.pick("", " d") + v.g.pick("", " where "+field()+" = 1") + "), "
	}
	s += field() + " from " + from
	if v.g.p(60) {
		s += " where " + field() + " = 1"
		for v.g.p(40) {
			s += v.g.pick(" and ", " or ") + v.g.pick(field(), "f("+field()+")") + " < " + v.g.pick("2", field())
		}
	}
	if v.g.p(20) {
		s += " order by " + field()
	}
	return s
}

func (v *vRun) wild() { v.structText(v.wildText()) }

func (v *vRun) structText(s string) {
	q, err, bad := parseFast(s)
	v.count(s, err == nil && bad == "")
	if bad != "" {
		if v.prop == "C01" {
			v.fail(s, "", "parse", bad)
		}
		return
	}
	if err != nil {
		return
	}
	if e := guard(func() string { return vStruct[v.prop](q) }); e != "" {
		v.fail(s, "", "struct", e)
	}
}

func (v *vRun) runC01() { v.wild() }

// runC03 writes literals that denote no value: whatever were recorded for them would be wrong.
func (v *vRun) runC03() {
	lit := ""
	switch v.g.n(6) {
	case 0:
		lit = fmt.Sprintf("%04d-%02d-%02d", 1900+v.g.n(200), []int{0, 13, 14, 20, 99}[v.g.n(5)], 1+v.g.n(28))
	case 1:
		m := []int{2, 4, 6, 9, 11}[v.g.n(5)]
		d := 31 + v.g.n(60)
		if m == 2 {
			d = 30 + v.g.n(60)
		}
		lit = fmt.Sprintf("%04d-%02d-%02d", 1900+v.g.n(200), m, d)
	case 2:
		lit = fmt.Sprintf("%02d:%02d", 24+v.g.n(70), v.g.n(60)) + v.g.pick("", ":00", ":00.5")
	case 3:
		lit = fmt.Sprintf("%02d:%02d", v.g.n(24), 60+v.g.n(40)) + v.g.pick("", ":00")
	case 4:
		lit = fmt.Sprintf("%02d:%02d:%02d", v.g.n(24), v.g.n(60), 60+v.g.n(40)) + v.g.pick("", ".25")
	case 5:
		lit = v.g.pick("0b2", "0b", "0o8", "0x", "0xg", "1e999", "1.5e400", "9223372036854775808", "99999999999999999999", "0x8000000000000000", `'\q'`, `'\x1'`, `'\u12'`, `'\8'`, "1a", "1.5a", "2021-02-29", "2100-02-29")
	}
	if strings.Contains(lit, ":") && v.g.p(40) {
		lit = "2020-05-06T" + lit + v.g.pick("Z", "+01:00")
	}
	s := "select Id from Contact where a = " + lit
	if v.g.p(30) {
		s = "select Id from Contact where a in (1, " + lit + ")"
	}
	_, err, bad := parseFast(s)
	v.count(s, err != nil && bad == "")
	if bad == "" && err == nil {
		v.fail(s, "", "accepted", "a literal without a value is accepted")
	}
}

// ---------------------------------------------------------------- C13

func pairDiff(q *types.SoqlQuery, err error, q2 *types.SoqlQuery, err2 error) string {
	if (err == nil) != (err2 == nil) {
		e := err
		if e == nil {
			e = err2
		}
		return "one spelling is accepted, the other is not: " + firstLine(e.Error())
	}
	if err != nil {
		return ""
	}
	a, b := vNorm(q), vNorm(q2)
	if a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		lo := i - 60
		if lo < 0 {
			lo = 0
		}
		cut := func(s string) string {
			hi := i + 60
			if hi > len(s) {
				hi = len(s)
			}
			return s[lo:hi]
		}
		return fmt.Sprintf("results differ: ...%s... and ...%s...", cut(a), cut(b))
	}
	return ""
}

func (v *vRun) runC13() {
	_, toks := v.genQuery()
	s1, s2 := v.g.render(toks, 0), v.g.render(toks, 1)
	q1, e1, b1 := parseFast(s1)
	q2, e2, b2 := parseFast(s2)
	v.count(s2, e2 == nil && b2 == "")
	if b1 != "" || b2 != "" {
		return
	}
	if e := pairDiff(q1, e1, q2, e2); e != "" {
		v.fail(s1, s2, "pair", e)
	}
}

// ---------------------------------------------------------------- C15: duplicates are rejected, generated names avoid written ones

func (v *vRun) runC15() {
	al := func() string { return v.g.recase(v.g.pick("expr0", "expr1", "EXPR2", "a", "b", "expr10", "expr")) }
	var items []string
	seen := map[string]bool{}
	dup := false
	for k := 1 + v.g.n(5); k > 0; k-- {
		it := v.g.pick("Id", "Name", "f(x)", "g()", "c.Id", "ID", "Acct.Name")
		if v.g.p(50) {
			a := al()
			it += " " + a
			if seen[strings.ToLower(a)] {
				dup = true
			}
			seen[strings.ToLower(a)] = true
		}
		items = append(items, it)
	}
	from := "Contact c"
	if v.g.p(30) {
		oa := map[string]bool{"c": true}
		for _, o := range []string{"c.Acct", "Contact", "Owner", "Contact.Acct"}[v.g.n(3):] {
			if v.g.p(50) {
				a := v.g.recase(v.g.pick("c", "d", "e", "k"))
				from += ", " + o + " " + a
				dup = dup || oa[strings.ToLower(a)]
				oa[strings.ToLower(a)] = true
			}
		}
	}
	s := "select " + strings.Join(items, ", ") + " from " + from
	if v.g.p(30) {
		s = "select Id, (select " + strings.Join(items, ", ") + " from c.Kids k) from Contact c"
		dup = false
		m := map[string]bool{}
		for _, it := range items {
			if f := strings.Fields(it); len(f) > 1 {
				if m[strings.ToLower(f[1])] {
					dup = true
				}
				m[strings.ToLower(f[1])] = true
			}
		}
		for _, it := range items {
			if strings.HasPrefix(it, "c.") { // the parent's field: not selectable here
				return
			}
		}
	}
	q, err, bad := parseFast(s)
	v.count(s, err == nil && bad == "")
	if bad != "" {
		return
	}
	if dup {
		if err == nil {
			v.fail(s, "", "accepted", "duplicate alias accepted")
		}
		return
	}
	if err != nil {
		v.fail(s, "", "rejected", "a valid query is rejected: "+firstLine(err.Error()))
		return
	}
	if e := guard(func() string { return oC15(q) }); e != "" {
		v.fail(s, "", "struct", e)
	}
	fs := q.Fields
	if strings.HasPrefix(s, "select Id, (") {
		fs = q.Fields[1].SubQuery.Fields
	}
	for i, it := range items {
		if f := strings.Fields(it); len(f) > 1 && fs[i].AliasName != f[1] {
			v.fail(s, "", "model", fmt.Sprintf("written alias %q became %q", f[1], fs[i].AliasName))
		}
	}
}

// ---------------------------------------------------------------- C16

func mutateDeep(x reflect.Value, seen map[uintptr]bool) {
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() || seen[x.Pointer()] {
			return
		}
		seen[x.Pointer()] = true
		mutateDeep(x.Elem(), seen)
	case reflect.Interface:
		if x.IsNil() {
			return
		}
		e := x.Elem()
		if e.Kind() == reflect.Slice {
			mutateDeep(e, seen)
		} else if x.CanSet() {
			x.Set(reflect.ValueOf("mutated"))
		}
	case reflect.Struct:
		if x.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < x.NumField(); i++ {
			mutateDeep(x.Field(i), seen)
		}
	case reflect.Slice:
		if x.Cap() > x.Len() {
			y := x.Slice(0, x.Cap())
			for i := 0; i < y.Len(); i++ {
				if y.Index(i).Kind() == reflect.String {
					y.Index(i).SetString("mutated")
				}
			}
		}
		for i := 0; i < x.Len(); i++ {
			mutateDeep(x.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range x.MapKeys() {
			x.SetMapIndex(k, reflect.Value{})
		}
		switch x.Type().Key().Kind() {
		case reflect.String:
			x.SetMapIndex(reflect.ValueOf("mutated"), reflect.New(x.Type().Elem()).Elem())
		case reflect.Int:
			x.SetMapIndex(reflect.ValueOf(-77), reflect.New(x.Type().Elem()).Elem())
		}
	case reflect.String:
		if x.CanSet() {
			x.SetString("mutated")
		}
	case reflect.Int, reflect.Int64:
		if x.CanSet() {
			x.SetInt(-77)
		}
	case reflect.Bool:
		if x.CanSet() {
			x.SetBool(!x.Bool())
		}
	}
}

// memOf collects the mutable memory of a result: objects, backing arrays, and maps.
func memOf(x reflect.Value, path string, out map[uintptr]string) {
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() || out[x.Pointer()] != "" {
			return
		}
		out[x.Pointer()] = path
		memOf(x.Elem(), path, out)
	case reflect.Interface:
		if !x.IsNil() {
			memOf(x.Elem(), path, out)
		}
	case reflect.Struct:
		if x.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < x.NumField(); i++ {
			memOf(x.Field(i), path+"."+x.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		if x.Cap() > 0 && x.Type().Elem().Size() > 0 {
			y := x.Slice(0, x.Cap())
			for i := 0; i < y.Len(); i++ {
				if a := y.Index(i).Addr().Pointer(); out[a] == "" {
					out[a] = path
				}
			}
		}
		for i := 0; i < x.Len(); i++ {
			memOf(x.Index(i), path+"[]", out)
		}
	case reflect.Map:
		if !x.IsNil() {
			out[x.Pointer()] = path
			for _, k := range x.MapKeys() {
				memOf(x.MapIndex(k), path+"[]", out)
			}
		}
	}
}

var vNameRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// vNearly changes one word of a text, or its letter case.
func vNearly(g *vGen, s string) string {
	at := vNameRe.FindAllStringIndex(s, -1)
	if len(at) == 0 {
		return s
	}
	a := at[g.n(len(at))]
	w := s[a[0]:a[1]]
	switch g.n(3) {
	case 0:
		w = g.recase(w)
	case 1:
		w += g.pick("x", "1", "_", "s")
	default:
		if b := at[g.n(len(at))]; true {
			w = s[b[0]:b[1]]
		}
	}
	return s[:a[0]] + w + s[a[1]:]
}

func (v *vRun) runC16() {
	n := 1 + v.g.n(4)
	var texts, norms []string
	var qs []*types.SoqlQuery
	for i := 0; i < n; i++ {
		s := ""
		if i > 0 && v.g.p(30) {
			s = texts[v.g.n(i)]
		} else if i > 0 && v.g.p(40) {
			// nearly the same text: state kept from the first one would show in the second one
			s = vNearly(v.g, texts[v.g.n(i)])
		} else if v.g.p(85) {
			_, toks := v.genQuery()
			s = v.g.render(toks, 1)
		} else {
			s = v.wildText()
		}
		q, err, bad := parseFast(s)
		if bad != "" {
			return
		}
		texts = append(texts, s)
		qs = append(qs, q)
		if err != nil {
			norms = append(norms, "error "+err.Error())
		} else {
			norms = append(norms, vNorm(q))
		}
	}
	seen, owner := map[uintptr]string{}, map[uintptr]int{}
	for i := range qs {
		if qs[i] == nil {
			continue
		}
		mem := map[uintptr]string{}
		memOf(reflect.ValueOf(qs[i]), "q", mem)
		for a, p := range mem {
			if o, ok := owner[a]; ok {
				v.fail(texts[i], texts[o], "model", "results of two parses share the memory of "+p+" and "+seen[a])
				break
			}
		}
		for a, p := range mem {
			owner[a], seen[a] = i, p
		}
	}
	for i := range texts {
		v.count(texts[i], qs[i] != nil)
		if i > 0 && qs[i-1] != nil && v.g.p(70) {
			mutateDeep(reflect.ValueOf(qs[i-1]), map[uintptr]bool{})
		}
		if qs[i] != nil && vNorm(qs[i]) != norms[i] {
			v.fail(texts[i], "", "model", "a result changed after another result was modified")
		}
		for k := 0; k < 2; k++ {
			q, err, _ := parseFast(texts[i])
			got := ""
			if err != nil {
				got = "error " + err.Error()
			} else {
				got = vNorm(q)
			}
			if got != norms[i] {
				v.fail(texts[i], texts[i], "model", "parsing the same text again gives another result")
			}
		}
	}
}

// ---------------------------------------------------------------- C17

func (v *vRun) runC17() {
	if v.g.p(25) { // grouping through aliases
		f := func() string { return v.g.recase(v.g.pick("Name", "Id", "Other", "Acct.Name", "Acct.Other")) }
		al := func() string { return v.g.recase(v.g.pick("Name", "Id", "Other", "nm")) }
		var items, gs []string
		for k := 1 + v.g.n(3); k > 0; k-- {
			it := f()
			if v.g.p(50) {
				it += " " + al()
			}
			items = append(items, it)
		}
		if v.g.p(40) {
			items = append(items, v.g.pick("count(Id)", "max(Other)", "f(Name)"))
		}
		v.g.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		for k := 1 + v.g.n(3); k > 0; k-- {
			gs = append(gs, v.g.pick(f(), al()))
		}
		s := "select " + strings.Join(items, ", ") + " from Contact group by " + strings.Join(gs, ", ")
		q, err, bad := parseFast(s)
		v.count(s, err == nil && bad == "")
		if bad == "" && err == nil {
			if e := guard(func() string { return oC17(q) }); e != "" {
				v.fail(s, "", "struct", e)
			}
		}
		return
	}
	type it struct {
		s    string
		kind string // plain, agg, fn, sub, set
		key  string
	}
	pool := []it{{"Name", "plain", "name"}, {"Id", "plain", "id"}, {"c.name", "plain", "name"}, {"Acct.Name", "plain", "acct.name"}, {"count(Id)", "agg", ""}, {"COUNT()", "agg", ""},
		{"Count_Distinct(Name)", "agg", ""}, {"max(Id)", "fn", ""}, {"f(count(Id))", "agg", ""}, {"(select Id from Kids)", "sub", ""}, {"fields(all)", "set", ""}, {"x.c", "plain", "x.c"}}
	groups := map[string]string{"name": "Name", "id": "ID", "acct.name": "ACCT.NAME"}
	var items []it
	for k := 1 + v.g.n(4); k > 0; k-- {
		items = append(items, pool[v.g.n(len(pool))])
	}
	grouped := map[string]bool{}
	var gs []string
	dupG := false
	if v.g.p(50) {
		for k := 1 + v.g.n(3); k > 0; k-- {
			ks := []string{"name", "id", "acct.name"}
			key := ks[v.g.n(3)]
			if grouped[key] {
				dupG = true
			}
			grouped[key] = true
			gs = append(gs, v.g.recase(groups[key]))
		}
	}
	having := v.g.p(20)
	whereAgg := v.g.p(10)
	agg := len(gs) > 0
	for _, x := range items {
		if x.kind == "agg" {
			agg = true
		}
	}
	reject := dupG || whereAgg || (having && len(gs) == 0)
	if agg {
		for _, x := range items {
			switch x.kind {
			case "plain":
				if !grouped[x.key] {
					reject = true
				}
			case "sub", "set":
				reject = true
			}
		}
	}
	mk := func(items []it) string {
		var w []string
		for _, x := range items {
			w = append(w, x.s)
		}
		s := "select " + strings.Join(w, ", ") + " from Contact c"
		if whereAgg {
			s += " where " + v.g.pick("count(Id)", "Count_distinct(Id)", "f(count(Id))") + " > 1"
		}
		if gs != nil {
			s += " group by " + strings.Join(gs, ", ")
		}
		if having && (gs != nil) {
			s += " having " + v.g.pick("count(Id)", "max(Id)") + " > 1"
		}
		return s
	}
	if having && gs == nil { // HAVING cannot be written without GROUP BY in the grammar: must be rejected as text
		s := mk(items) + " having count(Id) > 1"
		_, err, bad := parseFast(s)
		v.count(s, err == nil)
		if bad == "" && err == nil {
			v.fail(s, "", "accepted", "HAVING without GROUP BY accepted")
		}
		return
	}
	first := mk(items)
	for k := 0; k < 3; k++ {
		s := mk(items)
		q, err, bad := parseFast(s)
		v.count(s, err == nil && bad == "")
		if bad != "" {
			return
		}
		if reject && err == nil {
			v.fail(s, "", "accepted", "a query that breaks an aggregation rule is accepted")
			return
		}
		if !reject && err != nil {
			v.fail(s, "", "rejected", "a valid query is rejected: "+firstLine(err.Error()))
			return
		}
		if err == nil {
			if e := guard(func() string { return oC17(q) }); e != "" {
				v.fail(s, "", "struct", e)
			}
		}
		v.g.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	_ = first
	// ORDER BY duplicates
	if v.g.p(30) {
		mod := func() string {
			return v.g.pick("", " asc", " desc") + v.g.pick("", " nulls first", " nulls last")
		}
		names := func() string {
			return v.g.pick("Name", "naMe", "c.NAME", "Contact.Name", "contact.name", "nm")
		}
		list := []string{names() + mod(), names() + mod()}
		for k := v.g.n(3); k > 0; k-- {
			list = append(list, v.g.pick("Id", "x", "c.y", "z")[:1]+strconv.Itoa(k)+mod())
		}
		v.g.r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		s := "select Name, NAME nm from Contact c order by " + strings.Join(list, ", ")
		_, err, bad := parseFast(s)
		v.count(s, err == nil)
		if bad == "" && err == nil {
			v.fail(s, "", "accepted", "duplicate ORDER BY item accepted")
		}
	}
}

// ---------------------------------------------------------------- C18

var vPosRe = regexp.MustCompile(`--> Line (-?\d+), Col (-?\d+)`)

func positionOf(s string, err error) string {
	if err == nil {
		return ""
	}
	m := vPosRe.FindStringSubmatch(err.Error())
	if m == nil {
		return ""
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	lines := strings.Split(strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n"), "\n")
	if line < 1 || line > len(lines) {
		return fmt.Sprintf("error line %d of %d", line, len(lines))
	}
	if col < 1 || col > len(lines[line-1])+1 {
		return fmt.Sprintf("error column %d in a line of %d bytes", col, len(lines[line-1]))
	}
	return ""
}

func (v *vRun) runC18() {
	if v.g.p(25) {
		s := v.wildText()
		_, err, bad := parseFast(s)
		v.count(s, err == nil && bad == "")
		if bad == "" {
			if e := positionOf(s, err); e != "" {
				v.fail(s, "", "position", e)
			}
		}
		return
	}
	_, toks := v.genQuery()
	base := v.g.render(toks, 1)
	var s, why string
	switch v.g.n(7) {
	case 0:
		s, why = base+v.g.pick(" ", "\n", " /* c */ ")+v.g.pick(")", "x y z w", "select Id from C", ";", ", )", "= 1", "'x'", "and a = 1 1", "where where", "(", "1", "from Foo", ".", "limit 1 limit 1 limit 1", "\x00"), "text after the query"
	case 1:
		s, why = v.g.pick(")", "x ", ";", "1 ", "'a' ", "(", "select ", ", ", "-")+base, "text before the query"
	case 2:
		s, why = base+" /* open", "unterminated comment"
	case 3: // unterminated string
		s, why = "select Id from Contact where a = 'abc"+v.g.pick("", " and b = 1", "\\'", " limit 1"), "unterminated string"
	case 4: // drop one parenthesis
		var idx []int
		for i, t := range toks {
			if t.k == tPunct && (t.s == "(" || t.s == ")") {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return
		}
		i := idx[v.g.n(len(idx))]
		s, why = v.g.render(append(append([]vTok{}, toks[:i]...), toks[i+1:]...), 0), "unbalanced parenthesis"
	case 5: // a clause keyword without its content, or a missing mandatory part
		s = v.g.pick("select from Contact", "select Id", "select Id from", "select Id from Contact where", "select Id from Contact where a", "select Id from Contact where a =",
			"select Id from Contact where a = 1 and", "select Id from Contact where a = 1 or", "select Id from Contact where not", "select Id from Contact where (a = 1", "select Id, from Contact",
			"select Id from Contact,", "select Id from Contact order by", "select Id from Contact group by", "select Id from Contact limit", "select Id from Contact offset", "select Id from Contact group by Id having",
			"select Id from Contact for update,", "select Id from Contact where a in ()", "select Id from Contact where a in (1,", "select Id from Contact where a = :", "select (select Id from Foos from Contact",
			"select f(Id from Contact", "select Id from Contact where a like", "select Id from Contact where a not 'x'", "select Id from Contact limit x", "select Id from Contact limit 1 limit 2", "select Id from Contact order by Id nulls",
			"select Id from Contact where a = 1 where b = 2", "select Id from Contact for", "select Id from Contact c for x", "select Id from Contact where a == 1", "select Id from Contact where = 1", "select Id Contact", "Id from Contact", "",
			"select Id from Contact where a = LAST_N_DAYS", "select Id from Contact where a = LAST_N_DAYS:", "select Id from Contact where a = LAST_N_DAYS:-1")
		if strings.HasSuffix(s, "Contact for") { // "for" alone is an ordinary alias name
			return
		}
		if strings.HasSuffix(s, "= LAST_N_DAYS") { // reads as a field name
			return
		}
		why = "incomplete query"
		switch v.g.n(6) {
		case 0:
			s = "select Id, (" + s + ") from Contact"
		case 1:
			s = "select Id from Contact where a = 1 and Id in (" + s + ")" + v.g.pick("", " or b = 2")
		case 2:
			s = "select Id from Contact group by Id having f(Id) in (" + s + ")"
		}
	case 6: // the full text must be accepted as it is, and with space and comments around it
		s = v.g.pick("", " ", "\n", "/* a */", "-- a\n") + base + v.g.pick("", " ", "\r\n", "/* b */", "-- b", " -- b\n", "/**/ ")
		_, err, bad := parseFast(s)
		v.count(s, err == nil && bad == "")
		if bad == "" && err != nil {
			v.fail(s, "", "rejected", "a complete query is rejected: "+firstLine(err.Error()))
		}
		return
	}
	_, err, bad := parseFast(s)
	v.count(s, err != nil && bad == "")
	if bad != "" {
		return
	}
	if err == nil {
		v.fail(s, "", "accepted", why+" is accepted")
	} else if e := positionOf(s, err); e != "" {
		v.fail(s, "", "position", e)
	}
}

// fixed runs hand-written inputs kept for every property (defects that were repaired, corner cases).
func (v *vRun) fixed() {
	for _, c := range vFixed {
		if c.prop != v.prop && c.prop != "" {
			continue
		}
		q, err, bad := parseFast(c.in)
		v.count(c.in, err == nil && bad == "")
		if bad != "" {
			if v.prop == "C01" {
				v.fail(c.in, "", "parse", bad)
			}
			continue
		}
		if c.check != nil {
			if e := guard(func() string { return c.check(q, err) }); e != "" {
				v.fail(c.in, "", "model", e)
			}
		}
		if f := vStruct[v.prop]; f != nil && err == nil {
			if e := guard(func() string { return f(q) }); e != "" {
				v.fail(c.in, "", "struct", e)
			}
		}
	}
}
