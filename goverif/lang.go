package main

// The specification language: parser for expressions and for contract files.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

type Node struct {
	Op   string // num str id sel idx slice call un bin ite forall exists
	S    string
	A    []*Node
	Vars []QVar
	Pat  [][]*Node
}

type QVar struct {
	Name   string
	Type   string // "" = int range
	Lo, Hi *Node
}

type tok struct {
	k, s string // k: id num str op eof
}

type lexer struct {
	t []tok
	p int
	s string
}

var ops = []string{"<==>", "==>", "::", "..", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "<", ">", "!", "+", "-", "*"}

func lex(s string) *lexer {
	l := &lexer{s: s}
	i := 0
outer:
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '@':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$' || s[j] == '@') {
				j++
			}
			l.t = append(l.t, tok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			l.t = append(l.t, tok{"num", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				j++
			}
			l.t = append(l.t, tok{"str", s[i+1 : j]})
			i = j + 1
		default:
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					l.t = append(l.t, tok{"op", o})
					i += len(o)
					continue outer
				}
			}
			panic(fmt.Errorf("bad character %q in %q", c, s))
		}
	}
	l.t = append(l.t, tok{"eof", ""})
	return l
}

func (l *lexer) peek() tok { return l.t[l.p] }
func (l *lexer) is(s string) bool {
	return l.t[l.p].k == "op" && l.t[l.p].s == s
}
func (l *lexer) isID(s string) bool { return l.t[l.p].k == "id" && l.t[l.p].s == s }
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic(fmt.Errorf("expected %q, got %q in %q", s, l.peek().s, l.s))
	}
}

func parseExpr(s string) *Node {
	l := lex(s)
	n := l.expr()
	if l.peek().k != "eof" {
		panic(fmt.Errorf("trailing %q in %q", l.peek().s, s))
	}
	return n
}

func parseExprList(s string) []*Node {
	l := lex(s)
	var out []*Node
	for {
		out = append(out, l.expr())
		if !l.accept(",") {
			break
		}
	}
	if l.peek().k != "eof" {
		panic(fmt.Errorf("trailing %q in %q", l.peek().s, s))
	}
	return out
}

func (l *lexer) expr() *Node {
	n := l.imp()
	for l.accept("<==>") {
		n = &Node{Op: "bin", S: "<==>", A: []*Node{n, l.imp()}}
	}
	return n
}

func (l *lexer) imp() *Node {
	n := l.cond()
	if l.accept("==>") {
		return &Node{Op: "bin", S: "==>", A: []*Node{n, l.imp()}}
	}
	return n
}

func (l *lexer) cond() *Node {
	n := l.bin(0)
	if l.accept("?") {
		a := l.cond()
		l.expect(":")
		b := l.cond()
		return &Node{Op: "ite", A: []*Node{n, a, b}}
	}
	return n
}

var prec = [][]string{{"||"}, {"&&"}, {"==", "!=", "<", "<=", ">", ">="}, {"+", "-"}, {"*"}}

func (l *lexer) bin(p int) *Node {
	if p == len(prec) {
		return l.unary()
	}
	n := l.bin(p + 1)
outer:
	for {
		for _, o := range prec[p] {
			if l.accept(o) {
				n = &Node{Op: "bin", S: o, A: []*Node{n, l.bin(p + 1)}}
				continue outer
			}
		}
		return n
	}
}

func (l *lexer) unary() *Node {
	if l.accept("!") {
		return &Node{Op: "un", S: "!", A: []*Node{l.unary()}}
	}
	if l.accept("-") {
		return &Node{Op: "un", S: "-", A: []*Node{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(n *Node) *Node {
	for {
		switch {
		case l.accept("."):
			t := l.peek()
			if t.k != "id" && !(t.k == "op" && t.s == "*") {
				panic(fmt.Errorf("bad selector in %q", l.s))
			}
			l.p++
			n = &Node{Op: "sel", S: t.s, A: []*Node{n}}
		case l.accept("["):
			if l.accept(":") {
				h := l.expr()
				l.expect("]")
				n = &Node{Op: "slice", A: []*Node{n, {Op: "num", S: "0"}, h}}
				continue
			}
			a := l.expr()
			if l.accept(":") {
				if l.accept("]") {
					n = &Node{Op: "slice", A: []*Node{n, a, nil}}
					continue
				}
				h := l.expr()
				l.expect("]")
				n = &Node{Op: "slice", A: []*Node{n, a, h}}
				continue
			}
			l.expect("]")
			n = &Node{Op: "idx", A: []*Node{n, a}}
		case l.is("(") && (n.Op == "id" || n.Op == "sel"):
			l.p++
			c := &Node{Op: "call", S: n.S, A: nil}
			if n.Op == "sel" {
				c.S = n.A[0].S + "." + n.S
			}
			if !l.accept(")") {
				for {
					c.A = append(c.A, l.expr())
					if l.accept(")") {
						break
					}
					l.expect(",")
				}
			}
			n = c
		default:
			return n
		}
	}
}

// typeText reads a Go type expression.
func (l *lexer) typeText() string {
	s := ""
	for {
		switch {
		case l.accept("["):
			l.expect("]")
			s += "[]"
		case l.accept("*"):
			s += "*"
		default:
			t := l.peek()
			if t.k != "id" {
				panic(fmt.Errorf("bad type in %q at %q", l.s, t.s))
			}
			l.p++
			if t.s == "map" {
				l.expect("[")
				k := l.typeText()
				l.expect("]")
				return s + "map[" + k + "]" + l.typeText()
			}
			s += t.s
			if l.is(".") {
				l.p++
				s += "." + l.peek().s
				l.p++
			}
			if l.is("{") && (t.s == "interface" || t.s == "struct") {
				l.p++
				l.expect("}")
				s += "{}"
			}
			return s
		}
	}
}

func (l *lexer) primary() *Node {
	t := l.peek()
	switch {
	case l.accept("("):
		n := l.expr()
		l.expect(")")
		return n
	case t.k == "num":
		l.p++
		return &Node{Op: "num", S: t.s}
	case t.k == "str":
		l.p++
		return &Node{Op: "str", S: t.s}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		l.p++
		n := &Node{Op: t.s}
		for {
			v := QVar{Name: l.peek().s}
			l.p++
			if l.isID("in") {
				l.p++
				v.Lo = l.bin(3)
				l.expect("..")
				v.Hi = l.bin(3)
			} else {
				l.expect(":")
				v.Type = l.typeText()
			}
			n.Vars = append(n.Vars, v)
			if !l.accept(",") {
				break
			}
		}
		l.expect("::")
		for l.accept("{") {
			var ps []*Node
			for {
				ps = append(ps, l.expr())
				if l.accept("}") {
					break
				}
				l.expect(",")
			}
			n.Pat = append(n.Pat, ps)
		}
		n.A = []*Node{l.expr()}
		return n
	case t.k == "id":
		l.p++
		return &Node{Op: "id", S: t.s}
	}
	panic(fmt.Errorf("unexpected %q in %q", t.s, l.s))
}

// ---------------------------------------------------------------- contract files

type Clause struct {
	Name  string
	Props []string
	Text  string
	E     *Node
	Using []string // ... using NAME ...: the clauses that the proof needs
}

type LoopSpec struct {
	Inv      []Clause
	Dec      []Clause
	Hints    []Clause
	Modifies []Clause
	HasMod   bool
	Clears   []string   // ghost fields cleared before the loop
	Sets     [][2]*Node // ghost assignments at the end of each iteration
	Import   []string   // aspect: invariants of the base contract that are assumed
}

type Contract struct {
	Name       string // pkg.func or pkg.Type.method
	Props      []string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []Clause
	Dec        []Clause
	Hints      []Clause // at function exit
	EntryHints []Clause
	Pure       bool
	Trusted    string
	Loops      map[int]*LoopSpec
	NoTerm     string // why termination is not claimed
	Inline     bool
	Ghost      []Param
	File       string
	Used       bool
	Base       *Contract // aspect: proves more about the function of the base contract
	Aspects    []*Contract
	Sets       [][2]*Node // ghost assignments at the exit
	LoopClears bool
	Clears     []string          // ghost fields cleared at the entry
	Enters     [][2]*Node        // ghost assignments at the entry
	Partial    string            // why freedom from panics is not claimed
	Keeps      []Keep            // memory that calls of a function are assumed to leave as it is
	Stable     []Keep            // lemmas that relate the states at the calls of a function to the state at the exit
	AssumePre  map[string]string // callees whose preconditions are assumed at the calls in this function
	ProvePre   map[string]bool   // aspect: callees whose preconditions it proves at the calls in this function
}

type Keep struct {
	Func string
	Loc  Clause
	Why  string
}

type Param struct {
	Name, Type, State string
}

type FnDef struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Node // nil: SMT symbol of the same name
	maps   []string
	done   bool
	busy   bool
	SMT    string
	reads  []string // for uninterpreted functions over memory
}

type Lemma struct {
	Name     string
	Params   []Param
	Requires []Clause
	Ensures  []Clause
	Dec      *Node
	IH       [][]*Node
	Hints    []Clause
	Uses     []Clause
	Auto     [][]*Node
	Props    []string
	Trusted  string
}

type TypeInv struct {
	Type string
	Var  string
	C    Clause
}

type SpecDB struct {
	C          map[string]*Contract
	Fns        map[string]*FnDef
	Lemmas     map[string]*Lemma
	LemmaOrder []string
	SMT        []string
	Sorts      map[string]bool
	Axioms     []Clause
	TInv       []TypeInv
	Assumed    []string
	GhostF     map[string]map[string]string // ghost fields of structs: type name, field, sort
}

var kwRe = regexp.MustCompile(`^(func|aspect|import|props|ghostfield|set|clear|enter|partial|assumepre|provepre|keep|stable|requires|ensures|modifies|loop|invariant|decreases|hint|use|fn|ufun|lemma|smt|end|axiom|inline|trusted|typeinv|sort|ih|auto|entryhint|pure|noterm|ghost|assumption)\b(\[[^\]]*\])?\s*(.*)$`)
var usingRe = regexp.MustCompile(`^(.*) using ((?:\w+ ?)+)$`)
var labelRe = regexp.MustCompile(`^([A-Za-z_]\w*):([^:].*)$`)

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if s[i] == sep && d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, strings.TrimSpace(s[last:]))
	}
	return out
}

func parseParams(s string) []Param {
	var out []Param
	for _, p := range splitTop(s, ',') {
		f := strings.Fields(p)
		q := Param{Name: f[0]}
		if len(f) > 1 {
			q.Type = f[1]
		}
		if len(f) > 2 {
			q.State = f[2]
		}
		out = append(out, q)
	}
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}

func loadSpecs(dir string) (db *SpecDB, err error) {
	db = &SpecDB{C: map[string]*Contract{}, Fns: map[string]*FnDef{}, Lemmas: map[string]*Lemma{}, Sorts: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.parseFile(f, string(b)); err != nil {
			return nil, err
		}
	}
	return db, nil
}

type rawClause struct {
	kw, attr, text string
	line           int
}

func (db *SpecDB) parseFile(file, text string) (err error) {
	var raws []rawClause
	lists := map[string][]rawClause{}
	inList := ""
	inSMT := false
	for i, ln := range strings.Split(text, "\n") {
		t := strings.TrimSpace(ln)
		if inSMT {
			if t == "end" {
				inSMT = false
			} else {
				db.SMT = append(db.SMT, ln)
			}
			continue
		}
		if j := strings.Index(t, "//"); j >= 0 {
			t = strings.TrimSpace(t[:j])
		}
		if t == "" {
			continue
		}
		if t == "smt" {
			inSMT = true
			continue
		}
		if n, ok := strings.CutPrefix(t, "list "); ok {
			inList = strings.TrimSpace(n)
			continue
		}
		if inList != "" { // one clause per line, further lines of a clause start with ...
			if t == "end" {
				inList = ""
			} else if r, ok := strings.CutPrefix(t, "..."); ok {
				l := lists[inList]
				l[len(l)-1].text += " " + r
			} else {
				lists[inList] = append(lists[inList], rawClause{"", "", t, i + 1})
			}
			continue
		}
		m := kwRe.FindStringSubmatch(t)
		if m != nil {
			raws = append(raws, rawClause{m[1], strings.Trim(m[2], "[]"), m[3], i + 1})
		} else if len(raws) > 0 {
			raws[len(raws)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: %s", file, i+1, t)
		}
	}
	// invariant @NAME, ensures @NAME: every clause of the list NAME
	var exp []rawClause
	for _, r := range raws {
		if n, ok := strings.CutPrefix(strings.TrimSpace(r.text), "@"); ok && (r.kw == "invariant" || r.kw == "ensures" || r.kw == "requires" || r.kw == "modifies") {
			l := lists[n]
			if l == nil {
				return fmt.Errorf("%s:%d: no list %s", file, r.line, n)
			}
			for _, t := range l {
				attr := t.attr
				if attr == "" {
					attr = r.attr
				}
				exp = append(exp, rawClause{r.kw, attr, t.text, t.line})
			}
			continue
		}
		exp = append(exp, r)
	}
	raws = exp
	var c *Contract
	var lp *LoopSpec
	var lm *Lemma
	cur := 0
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s:%d: %v", file, cur, r)
		}
	}()
	for _, r := range raws {
		cur = r.line
		mk := func() Clause {
			cl := Clause{Text: r.text}
			if r.attr != "" {
				cl.Props = strings.Fields(strings.ReplaceAll(r.attr, ",", " "))
			}
			if m := labelRe.FindStringSubmatch(r.text); m != nil {
				cl.Name = m[1]
				cl.Text = strings.TrimSpace(m[2])
			}
			if m := usingRe.FindStringSubmatch(cl.Text); m != nil {
				cl.Text, cl.Using = m[1], strings.Fields(m[2])
			}
			cl.E = parseExpr(cl.Text)
			if cl.Name == "" {
				cl.Name = fmt.Sprintf("L%d", r.line)
			}
			return cl
		}
		switch r.kw {
		case "func":
			c = &Contract{Name: strings.TrimSpace(r.text), Loops: map[int]*LoopSpec{}, File: file}
			if db.C[c.Name] != nil {
				panic("duplicate contract " + c.Name)
			}
			db.C[c.Name] = c
			lp, lm = nil, nil
		case "aspect":
			// aspect FUNC#NAME: further postconditions of a contracted function, proved by themselves. The
			// preconditions, the frame, safety and termination are those of the contract of the function.
			k := strings.TrimSpace(r.text)
			b := db.C[strings.SplitN(k, "#", 2)[0]]
			if b == nil || db.C[k] != nil || !strings.Contains(k, "#") {
				panic("bad aspect " + k)
			}
			c = &Contract{Name: k, Loops: map[int]*LoopSpec{}, File: file, Base: b, NoTerm: b.NoTerm, Modifies: b.Modifies, Requires: b.Requires, Ghost: b.Ghost,
				Sets: b.Sets, Enters: b.Enters, Clears: b.Clears, Partial: b.Partial, AssumePre: b.AssumePre, Keeps: b.Keeps, Stable: b.Stable}
			b.Aspects = append(b.Aspects, c)
			db.C[k] = c
			lp, lm = nil, nil
		case "import":
			lp.Import = append(lp.Import, strings.Fields(r.text)...)
		case "props":
			if lm != nil {
				lm.Props = strings.Fields(r.text)
			} else {
				c.Props = strings.Fields(r.text)
			}
		case "inline":
			c.Inline = true
		case "pure":
			c.Pure = true
		case "trusted":
			if lm != nil {
				lm.Trusted = r.text
			} else {
				c.Trusted = r.text
			}
		case "noterm":
			c.NoTerm = r.text
		case "ghostfield":
			f := strings.Fields(r.text)
			tn, fn, ok := strings.Cut(f[0], ".")
			if !ok || len(f) != 2 || f[1] != "bool" && f[1] != "int" && f[1] != "IntArray" {
				panic("ghostfield TYPE.NAME bool|int|IntArray")
			}
			if db.GhostF == nil {
				db.GhostF = map[string]map[string]string{}
			}
			if db.GhostF[tn] == nil {
				db.GhostF[tn] = map[string]string{}
			}
			db.GhostF[tn][fn] = f[1]
		case "set": // ghost assignment at the exit of the function
			i := strings.Index(r.text, ":=")
			if i < 0 {
				panic("set x.ghost := value")
			}
			a := [2]*Node{parseExpr(r.text[:i]), parseExpr(r.text[i+2:])}
			if lp != nil { // at the end of each iteration
				lp.Sets = append(lp.Sets, a)
				c.LoopClears = true
			} else {
				c.Sets = append(c.Sets, a)
			}
		case "enter": // ghost assignment at the entry
			i := strings.Index(r.text, ":=")
			if i < 0 {
				panic("enter x.ghost := value")
			}
			c.Enters = append(c.Enters, [2]*Node{parseExpr(r.text[:i]), parseExpr(r.text[i+2:])})
		case "partial":
			c.Partial = r.text
		case "assumepre": // assumepre FUNC[/CLAUSE] REASON
			f := strings.SplitN(r.text, " ", 2)
			if len(f) != 2 {
				panic("assumepre FUNC REASON")
			}
			if c.AssumePre == nil {
				c.AssumePre = map[string]string{}
			}
			c.AssumePre[f[0]] = f[1]
		case "provepre": // provepre FUNC[/CLAUSE] ...: in an aspect
			if c.Base == nil {
				panic("provepre belongs in an aspect")
			}
			if c.ProvePre == nil {
				c.ProvePre = map[string]bool{}
			}
			for _, n := range strings.Fields(r.text) {
				c.ProvePre[n] = true
			}
		case "keep": // keep FUNC LOC, ... because REASON
			f := strings.SplitN(r.text, " ", 2)
			l, why, ok := strings.Cut(f[1], " because ")
			if len(f) != 2 || !ok {
				panic("keep FUNC LOC, ... because REASON")
			}
			for _, p := range splitTop(l, ',') {
				c.Keeps = append(c.Keeps, Keep{f[0], Clause{Text: p, E: parseExpr(p)}, why})
			}
		case "stable": // stable FUNC HINT: old in HINT is the state at each call of FUNC
			f := strings.SplitN(r.text, " ", 2)
			c.Stable = append(c.Stable, Keep{Func: f[0], Loc: Clause{Text: f[1], E: parseExpr(f[1])}})
		case "clear": // ghost field false (or 0) everywhere at the entry of the function
			if lp != nil { // before the loop
				lp.Clears = append(lp.Clears, strings.TrimSpace(r.text))
				c.LoopClears = true
			} else {
				c.Clears = append(c.Clears, strings.TrimSpace(r.text))
			}
		case "ghost":
			c.Ghost = append(c.Ghost, parseParams(r.text)...)
		case "assumption":
			db.Assumed = append(db.Assumed, r.text)
		case "requires":
			if lm != nil {
				lm.Requires = append(lm.Requires, mk())
			} else {
				c.Requires = append(c.Requires, mk())
			}
		case "ensures":
			if lm != nil {
				lm.Ensures = append(lm.Ensures, mk())
			} else {
				c.Ensures = append(c.Ensures, mk())
			}
		case "modifies":
			var cls []Clause
			if strings.TrimSpace(r.text) != "nothing" {
				for _, p := range splitTop(r.text, ',') {
					cls = append(cls, Clause{Text: p, E: parseExpr(p)})
				}
			}
			if lp != nil {
				lp.Modifies = append(lp.Modifies, cls...)
				lp.HasMod = true
			} else {
				c.Modifies = append(c.Modifies, cls...)
			}
		case "loop":
			n := 0
			fmt.Sscanf(r.text, "%d", &n)
			lp = &LoopSpec{}
			if c.Loops[n] != nil {
				panic("duplicate loop")
			}
			c.Loops[n] = lp
		case "invariant":
			lp.Inv = append(lp.Inv, mk())
		case "decreases":
			switch {
			case lm != nil:
				lm.Dec = parseExpr(r.text)
			case lp != nil:
				lp.Dec = append(lp.Dec, mk())
			default:
				c.Dec = append(c.Dec, mk())
			}
		case "hint":
			switch {
			case lm != nil:
				lm.Hints = append(lm.Hints, mk())
			case lp != nil:
				lp.Hints = append(lp.Hints, mk())
			default:
				c.Hints = append(c.Hints, mk())
			}
		case "entryhint":
			c.EntryHints = append(c.EntryHints, mk())
		case "use":
			lm.Uses = append(lm.Uses, mk())
		case "fn", "ufun":
			m := regexp.MustCompile(`^([\w$@]+)\s*\(([^)]*)\)\s*([\[\]\*\w\.]+)\s*(=(.*))?$`).FindStringSubmatch(r.text)
			if m == nil {
				panic("bad function definition")
			}
			d := &FnDef{Name: m[1], Params: parseParams(m[2]), Ret: m[3]}
			if r.kw == "fn" {
				d.Body = parseExpr(m[5])
			} else {
				d.SMT = d.Name
				if s := strings.TrimSpace(m[5]); s != "" {
					d.SMT = s
				}
			}
			if db.Fns[d.Name] != nil {
				panic("duplicate fn " + d.Name)
			}
			db.Fns[d.Name] = d
		case "lemma":
			m := regexp.MustCompile(`^(\w+)\s*\((.*)\)\s*$`).FindStringSubmatch(r.text)
			if m == nil {
				panic("bad lemma")
			}
			lm = &Lemma{Name: m[1], Params: parseParams(m[2])}
			db.Lemmas[lm.Name] = lm
			db.LemmaOrder = append(db.LemmaOrder, lm.Name)
			c, lp = nil, nil
		case "ih":
			lm.IH = append(lm.IH, parseExprList(r.text))
		case "auto":
			lm.Auto = append(lm.Auto, parseExprList(r.text))
		case "sort":
			for _, s := range strings.Fields(r.text) {
				db.Sorts[s] = true
			}
		case "axiom":
			cl := mk()
			db.Axioms = append(db.Axioms, cl)
		case "typeinv":
			m := regexp.MustCompile(`^(\S+)\s+(\w+)\s*:\s*(.*)$`).FindStringSubmatch(r.text)
			if m == nil {
				panic("bad typeinv")
			}
			ti := TypeInv{Type: m[1], Var: m[2], C: Clause{Name: fmt.Sprintf("%s_L%d", m[1], r.line), Text: m[3], E: parseExpr(m[3])}}
			if r.attr != "" {
				ti.C.Props = strings.Fields(r.attr)
			}
			db.TInv = append(db.TInv, ti)
		}
	}
	return nil
}
