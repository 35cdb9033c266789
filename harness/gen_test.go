package parser_test

// Structured generator of SOQL queries for the executable contracts.
// Every generated query carries what the specification says about it
// (expected paths, operators, values, flags), computed here from the
// syntax tree alone, never by calling the code under test.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

type vTokKind int

const (
	tKw    vTokKind = iota // keyword: letter case is free
	tName                  // name: spelling is kept
	tLit                   // literal: spelling is kept
	tPunct                 // punctuation, operators
	tSpace                 // white space that must stay non-empty
)

type vTok struct {
	k vTokKind
	s string
}

type vName struct {
	parts []string // as written
	fqn   []string // expected full path (lower case), including the field name
}

type vOperand struct {
	kind   types.SoqlFieldInfoType
	name   vName       // Field
	fn     string      // Function
	args   []*vOperand // Function
	value  interface{} // literals; for lists []types.SoqlListItem
	param  string      // ParameterizedValue
	dtName string      // DateTimeLiteralName
	dtN    int         //
	sub    *vQuery     // SubQuery
	toks   []vTok      // for literals: how it is written
}

type vCond struct {
	op    string // "and" "or" "not" "cmp"
	l, r  *vCond
	cmp   string
	a, b  *vOperand
	paren bool // written in redundant parentheses
}

type vItem struct {
	o     *vOperand
	alias string
}

type vObj struct {
	parts []string
	alias string
	fqn   []string
}

type vOrder struct {
	name  vName
	alias string // when it refers to a select alias
	dir   string
	nulls string
}

type vNum struct {
	set   bool
	n     int64
	param string
}

type vQuery struct {
	place    int // 0 primary, 1 select-list subquery, 2 conditional subquery
	parent   *vQuery
	items    []vItem
	from     []vObj
	where    *vCond
	group    []vName
	having   *vCond
	order    []vOrder
	offset   vNum
	limit    vNum
	offFirst bool
	forKw    []string  // e.g. for view , reference
	subs     []*vQuery // in pre-order of id assignment: select-list subqueries, then where, then having
	isAgg    bool
	objs     map[string]bool // lower-case dotted paths known so far
}

type vDead struct {
	name string
	q    *vQuery
}

type vGen struct {
	r       *rand.Rand
	depth   int
	aliasNo int
	seen    []string
	nan     bool
	dead    []vDead // aliases with the query they belong to
}

func (g *vGen) n(k int) int             { return g.r.Intn(k) }
func (g *vGen) p(pc int) bool           { return g.r.Intn(100) < pc }
func (g *vGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

var (
	vHeads  = []string{"Contact", "Lead", "Case__c", "ns__Obj__c"}
	vRels   = []string{"Acct", "Owner", "Mgr", "CreatedBy__r"}
	vKids   = []string{"Foos", "Bars", "Kids__r"}
	vFields = []string{"Id", "Name", "x", "y", "z", "Amount__c", "Phone", "for", "asc", "inn", "notes", "order_id", "Nulls1"}
	vFuncs  = []string{"foo", "bar", "TOLABEL", "Fmt_1", "max", "sum"}
)

// recase changes the letter case of ASCII letters at random.
func (g *vGen) recase(s string) string {
	switch g.n(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if g.p(50) {
			c := b[i]
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

func lows(s []string) []string {
	r := make([]string, len(s))
	for i := range s {
		r[i] = strings.ToLower(s[i])
	}
	return r
}

func cat(a []string, b ...string) []string {
	r := make([]string, 0, len(a)+len(b))
	r = append(r, a...)
	return append(r, b...)
}

func dotted(s []string) string { return strings.Join(s, "\x00") }

func (q *vQuery) head() []string { return q.from[0].fqn }

func (q *vQuery) addPath(fqnObj []string) {
	h := len(q.head())
	for i := h; i <= len(fqnObj); i++ {
		q.objs[dotted(fqnObj[:i])] = true
	}
}

const vIdent = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz$_0123456789"

// names that begin like a keyword or a literal, or use rare characters
var vOdd = []string{"nullable", "null_", "trueish", "false1", "today1", "NaNx", "Infinity1", "last_week_", "likes", "and_1", "orx",
	"notin", "dates", "v9", "$x", "_u0", "Q7$", "K26", "includes1", "excludesX", "inx", "selects", "from_", "wheres", "havingA", "ordering", "groups",
	"limit1", "offset_", "forx", "e5", "E1", "x0", "b1", "o7", "T10", "z1"}

// ident picks a name of the pool, or now and then any other identifier; the suffix keeps the kinds of names apart
func (g *vGen) ident(pool []string, suffix string) string {
	if !g.p(12) {
		return pool[g.n(len(pool))]
	}
	if g.p(30) && len(g.seen) > 0 {
		return g.seen[g.n(len(g.seen))] + suffix
	}
	s := vOdd[g.n(len(vOdd))]
	if g.p(50) {
		b := []byte{vIdent[g.n(54)]}
		for k := 6 + g.n(6); k > 0; k-- {
			b = append(b, vIdent[g.n(len(vIdent))])
		}
		s = string(b)
	}
	g.seen = append(g.seen, s)
	return s + suffix
}

// genName makes a plain field reference and its expected resolution.
// mode: 0 select item, 1 function argument in select / where, 2 where, 3 order by (no new objects)
// sees tells whether the aliases of p are in scope in q.
func (q *vQuery) sees(p *vQuery) bool {
	for ; q != nil; q = q.parent {
		if q == p {
			return true
		}
		if q.place != 1 {
			break
		}
	}
	return false
}

func (g *vGen) genName(q *vQuery, mode int) vName {
	f := g.ident(vFields, "")
	if g.p(30) {
		f = g.recase(f)
	}
	lf := strings.ToLower(f)
	h := q.head()
	rel := func() []string {
		var out []string
		for k := 0; k < 1+g.n(2); k++ {
			out = append(out, g.ident(vRels, "_r9"))
		}
		if len(g.dead) > 0 && g.p(15) {
			// the alias of another query is a free name here
			d := g.dead[g.n(len(g.dead))]
			if !q.sees(d.q) {
				out[0] = d.name
			}
		}
		return out
	}
	lead := func() []string { // a prefix that names the head object, or nothing
		var c [][]string
		c = append(c, nil, nil)
		if q.from[0].alias != "" {
			c = append(c, []string{g.recase(q.from[0].alias)})
		}
		if q.place != 1 {
			c = append(c, []string{g.recase(q.from[0].parts[len(q.from[0].parts)-1])})
		}
		return c[g.n(len(c))]
	}
	for {
		switch g.n(5) {
		case 0, 1:
			pre := lead()
			return vName{parts: cat(pre, f), fqn: cat(h, lf)}
		case 2: // implicit relationship of the head object
			r := rel()
			fq := cat(h, lows(r)...)
			if mode == 3 && !q.objs[dotted(fq)] {
				continue
			}
			pre := lead()
			rr := make([]string, len(r))
			for i := range r {
				rr[i] = r[i]
				if g.p(30) {
					rr[i] = g.recase(r[i])
				}
			}
			q.addPath(fq)
			return vName{parts: cat(cat(pre, rr...), f), fqn: cat(fq, lf)}
		case 3: // through the alias of a listed object
			i := g.n(len(q.from))
			o := q.from[i]
			if o.alias == "" {
				continue
			}
			var r []string
			if g.p(30) {
				r = rel()
			}
			fq := cat(o.fqn, lows(r)...)
			if mode == 3 && !q.objs[dotted(fq)] {
				continue
			}
			q.addPath(fq)
			return vName{parts: cat(cat([]string{g.recase(o.alias)}, r...), f), fqn: cat(fq, lf)}
		case 4: // correlated reference to the parent's head object
			if q.place != 1 || mode != 2 || q.parent.isAgg {
				continue
			}
			ph := q.parent.head()
			var pre string
			if q.parent.from[0].alias != "" && g.p(60) {
				pre = g.recase(q.parent.from[0].alias)
			} else if q.parent.place != 1 {
				pre = g.recase(q.parent.from[0].parts[0])
			} else {
				continue
			}
			return vName{parts: []string{pre, f}, fqn: cat(ph, lf)}
		}
	}
}

func lit(kind types.SoqlFieldInfoType, v interface{}, s string) *vOperand {
	k := tLit
	return &vOperand{kind: kind, value: v, toks: []vTok{{k, s}}}
}

func (g *vGen) genString() (string, string) {
	var w, v strings.Builder
	w.WriteByte('\'')
	for k := g.n(5); k > 0; k-- {
		switch g.n(14) {
		case 0:
			w.WriteString(`\n`)
			v.WriteByte('\n')
		case 1:
			w.WriteString(`\'`)
			v.WriteByte('\'')
		case 2:
			w.WriteString(`\\`)
			v.WriteByte('\\')
		case 3:
			w.WriteString(`\t`)
			v.WriteByte('\t')
		case 4:
			w.WriteString(`\%`)
			v.WriteString(`\%`)
		case 5:
			w.WriteString(`\_`)
			v.WriteString(`\_`)
		case 6:
			c := rune(0x20 + g.n(0x2000))
			fmt.Fprintf(&w, g.pick(`\u%04x`, `\u%04X`), c)
			v.WriteRune(c)
		case 7:
			s := g.pick("\\r\r", "\\b\b", "\\f\f", "\\v\v", "\\\"\"", "\\``", "\\N\n", "\\T\t", "\\R\r")
			w.WriteString(s[:2])
			v.WriteString(s[2:])
		case 8:
			s := g.pick(" ", "--", "/*", "*/", "(", ")", ",", "and", "from", "\"", "\n", "é", "日本", "🙂", ":")
			w.WriteString(s)
			v.WriteString(s)
		case 9:
			c := 0x20 + g.n(0x5e)
			fmt.Fprintf(&w, `\x%02X`, c)
			v.WriteByte(byte(c))
		case 10:
			c := 0x20 + g.n(0x5e)
			fmt.Fprintf(&w, `\%03o`, c)
			v.WriteByte(byte(c))
		case 11:
			c := rune(0x10000 + g.n(0x1000))
			if g.p(50) {
				c = rune(0x20 + g.n(0x80)<<uint(g.n(5)))
			}
			if g.p(5) {
				c = rune(0x10ffff - g.n(0x100))
			}
			fmt.Fprintf(&w, g.pick(`\u{%x}`, `\u{%X}`, `\u{%06x}`, `\u{%05x}`), c)
			v.WriteRune(c)
		default:
			s := g.pick("a", "b", "Z", "0", "%", "_x", "abc")
			w.WriteString(s)
			v.WriteString(s)
		}
	}
	w.WriteByte('\'')
	return w.String(), v.String()
}

var vDtNames = []string{"YESTERDAY", "TODAY", "TOMORROW", "LAST_WEEK", "THIS_WEEK", "NEXT_WEEK", "LAST_MONTH", "THIS_MONTH", "NEXT_MONTH",
	"LAST_90_DAYS", "NEXT_90_DAYS", "THIS_QUARTER", "LAST_QUARTER", "NEXT_QUARTER", "THIS_YEAR", "LAST_YEAR", "NEXT_YEAR",
	"THIS_FISCAL_QUARTER", "LAST_FISCAL_QUARTER", "NEXT_FISCAL_QUARTER", "THIS_FISCAL_YEAR", "LAST_FISCAL_YEAR", "NEXT_FISCAL_YEAR"}
var vDtNNames = []string{"LAST_N_DAYS", "NEXT_N_DAYS", "LAST_N_WEEKS", "NEXT_N_WEEKS", "LAST_N_MONTHS", "NEXT_N_MONTHS", "LAST_N_QUARTERS", "NEXT_N_QUARTERS",
	"LAST_N_YEARS", "NEXT_N_YEARS", "LAST_N_FISCAL_QUARTERS", "NEXT_N_FISCAL_QUARTERS", "LAST_N_FISCAL_YEARS", "NEXT_N_FISCAL_YEARS"}

// under puts digit separators into a decimal number.
func (g *vGen) under(s string) string {
	if len(s) > 1 && s[0] != '0' && g.p(15) {
		i := 1 + g.n(len(s)-1)
		return s[:i] + "_" + s[i:]
	}
	return s
}

func (g *vGen) genLiteral(inList bool) *vOperand {
	switch g.n(13) {
	case 0:
		return lit(types.SoqlFieldInfo_Literal_Null, nil, g.recase("null"))
	case 1:
		b := g.p(50)
		return lit(types.SoqlFieldInfo_Literal_Bool, b, g.recase(strconv.FormatBool(b)))
	case 2, 3:
		n := g.r.Int63n(1 << uint(1+g.n(40)))
		if g.p(20) {
			n = g.r.Int63() >> uint(g.n(63))
		}
		if g.p(4) {
			n = math.MaxInt64 - int64(g.n(2))
		}
		switch g.n(8) {
		case 0:
			h := strconv.FormatInt(n, 16)
			if g.p(50) {
				h = strings.ToUpper(h)
			}
			return lit(types.SoqlFieldInfo_Literal_Int, n, g.pick("0x", "0X")+h)
		case 1:
			return lit(types.SoqlFieldInfo_Literal_Int, n, g.pick("0o", "0O")+strconv.FormatInt(n, 8))
		case 2:
			return lit(types.SoqlFieldInfo_Literal_Int, n, g.pick("0b", "0B")+strconv.FormatInt(n, 2))
		case 3:
			if g.p(5) {
				return lit(types.SoqlFieldInfo_Literal_Int, int64(math.MinInt64), "-9223372036854775808")
			}
			return lit(types.SoqlFieldInfo_Literal_Int, -n, "-"+g.under(strconv.FormatInt(n, 10)))
		case 4:
			return lit(types.SoqlFieldInfo_Literal_Int, n, "+"+strconv.FormatInt(n, 10))
		}
		return lit(types.SoqlFieldInfo_Literal_Int, n, g.under(strconv.FormatInt(n, 10)))
	case 4:
		f := float64(g.n(100000))/64 + 0.0078125
		s := strconv.FormatFloat(f, 'f', -1, 64)
		switch g.n(8) {
		case 0:
			f = float64(g.n(1000)) / 8
			e := g.n(40) - 20
			s = strconv.FormatFloat(f, 'f', -1, 64) + g.pick("e", "E") + g.pick("", "+", "-")
			if s[len(s)-1] == '-' {
				e = -e
			}
			if e < 0 {
				e = -e
			}
			s += strconv.Itoa(e)
			f, _ = strconv.ParseFloat(s, 64)
		case 1:
			f = g.r.Float64()
			s = strconv.FormatFloat(f, 'f', -1, 64)
			if g.p(50) {
				s = strings.TrimPrefix(s, "0")
			}
		case 2:
			f = math.Float64frombits(g.r.Uint64() & 0x7fefffffffffffff)
			s = strconv.FormatFloat(f, 'e', -1, 64)
		case 3:
			if g.p(30) {
				if g.nan && g.p(30) {
					return lit(types.SoqlFieldInfo_Literal_Float, math.NaN(), g.recase("NaN"))
				}
				s, f = g.recase("Infinity"), math.Inf(1)
			}
		}
		if g.p(30) {
			s, f = "-"+s, -f
		} else if g.p(10) {
			s = "+" + s
		}
		return lit(types.SoqlFieldInfo_Literal_Float, f, s)
	case 5, 6:
		w, v := g.genString()
		return lit(types.SoqlFieldInfo_Literal_String, v, w)
	case 7:
		d := time.Date(1+g.n(9998), time.Month(1+g.n(12)), 1+g.n(28), 0, 0, 0, 0, time.UTC)
		if g.p(20) {
			d = time.Date(1+g.n(9997), time.Month(1+g.n(12)), 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, -1)
			if d.Year() < 1 {
				d = d.AddDate(1, 0, 0)
			}
		}
		return lit(types.SoqlFieldInfo_Literal_Date, d, d.Format("2006-01-02"))
	case 8:
		off := (g.n(27) - 12) * 3600
		if g.p(30) {
			off += g.n(4) * 900
		}
		d := time.Date(1000+g.n(8000), time.Month(1+g.n(12)), 1+g.n(28), g.n(24), g.n(60), g.n(60), 0, time.FixedZone("", off))
		zone := "-07:00"
		if g.p(30) {
			d = d.UTC()
			zone = "Z07:00"
		}
		s := ""
		switch g.n(4) {
		case 0:
			k := 1 + g.n(9)
			ns := 0
			for i := 0; i < 9; i++ {
				ns *= 10
				if i < k {
					ns += g.n(10)
				}
			}
			d = d.Add(time.Duration(ns))
			s = d.Format("2006-01-02T15:04:05." + strings.Repeat("0", k) + zone)
		case 1:
			d = d.Add(-time.Duration(d.Second()) * time.Second)
			s = d.Format("2006-01-02T15:04" + zone)
		default:
			s = d.Format("2006-01-02T15:04:05" + zone)
		}
		return lit(types.SoqlFieldInfo_Literal_DateTime, d.UTC(), s)
	case 9:
		d := time.Date(1970, 1, 1, g.n(24), g.n(60), g.n(60), 0, time.UTC)
		switch g.n(4) {
		case 0:
			d = d.Add(time.Duration(g.n(1000)) * time.Millisecond)
			return lit(types.SoqlFieldInfo_Literal_Time, d, d.Format("15:04:05.000"))
		case 1:
			d = d.Add(-time.Duration(d.Second()) * time.Second)
			return lit(types.SoqlFieldInfo_Literal_Time, d, d.Format("15:04"))
		}
		return lit(types.SoqlFieldInfo_Literal_Time, d, d.Format("15:04:05"))
	case 10:
		p := g.ident([]string{"p1", "Par", "x_y"}, "")
		return &vOperand{kind: types.SoqlFieldInfo_ParameterizedValue, param: p, toks: []vTok{{tPunct, ":"}, {tName, p}}}
	case 11:
		n := vDtNames[g.n(len(vDtNames))]
		return &vOperand{kind: types.SoqlFieldInfo_DateTimeLiteralName, dtName: n, toks: []vTok{{tKw, n}}}
	default:
		n := vDtNNames[g.n(len(vDtNNames))]
		k := g.n(1000)
		if g.p(25) {
			k = int(g.r.Int63() >> uint(g.n(63)))
		}
		return &vOperand{kind: types.SoqlFieldInfo_DateTimeLiteralName, dtName: n, dtN: k, toks: []vTok{{tKw, n}, {tPunct, ":" + strconv.Itoa(k)}}}
	}
}

func (g *vGen) genList() *vOperand {
	o := &vOperand{kind: types.SoqlFieldInfo_Literal_List}
	o.toks = append(o.toks, vTok{tPunct, "("})
	var v []types.SoqlListItem
	for k := 1 + g.n(3); k > 0; k-- {
		e := g.genLiteral(true)
		it := types.SoqlListItem{Type: e.kind, Value: e.value}
		switch e.kind {
		case types.SoqlFieldInfo_ParameterizedValue:
			it.Value = e.param
		case types.SoqlFieldInfo_DateTimeLiteralName:
			it.Value = types.SoqlDateTimeLiteralName{Name: e.dtName, N: e.dtN}
		}
		v = append(v, it)
		o.toks = append(o.toks, e.toks...)
		o.args = append(o.args, e)
		if k > 1 {
			o.toks = append(o.toks, vTok{tPunct, ","})
		}
	}
	o.toks = append(o.toks, vTok{tPunct, ")"})
	o.value = v
	return o
}

func (g *vGen) genFn(q *vQuery, mode, depth int) *vOperand {
	o := &vOperand{kind: types.SoqlFieldInfo_Function, fn: g.recase(g.ident(vFuncs, ""))}
	na := g.n(3)
	for i := 0; i < na; i++ {
		switch {
		case depth > 0 && g.p(20):
			o.args = append(o.args, g.genFn(q, mode, depth-1))
		case g.p(60):
			o.args = append(o.args, &vOperand{kind: types.SoqlFieldInfo_Field, name: g.genName(q, 1)})
		default:
			// Only literals that do not look like a name: a bare word is a field name here.
			for {
				l := g.genLiteral(false)
				switch l.kind {
				case types.SoqlFieldInfo_Literal_Null, types.SoqlFieldInfo_Literal_Bool, types.SoqlFieldInfo_DateTimeLiteralName:
					continue
				case types.SoqlFieldInfo_Literal_Float:
					if f := l.value.(float64); math.IsNaN(f) || math.IsInf(f, 0) {
						continue
					}
				}
				o.args = append(o.args, l)
				break
			}
		}
	}
	return o
}

func (g *vGen) genCmp(q *vQuery, having bool) *vCond {
	c := &vCond{op: "cmp"}
	if having {
		if len(q.group) > 0 && g.p(50) {
			c.a = &vOperand{kind: types.SoqlFieldInfo_Function, fn: g.pick("count", "COUNT", "Count_Distinct"), args: []*vOperand{{kind: types.SoqlFieldInfo_Field, name: g.genName(q, 1)}}}
		} else {
			c.a = &vOperand{kind: types.SoqlFieldInfo_Function, fn: g.pick("max", "Sum", "foo"), args: []*vOperand{{kind: types.SoqlFieldInfo_Field, name: g.genName(q, 1)}}}
			for k := g.n(6) - 3; k > 0; k-- {
				// a function of functions is not an aggregate function
				c.a = &vOperand{kind: types.SoqlFieldInfo_Function, fn: g.recase(g.ident(vFuncs, "")), args: []*vOperand{c.a}}
				if g.p(30) {
					l := g.genLiteral(false)
					for l.kind != types.SoqlFieldInfo_Literal_String && l.kind != types.SoqlFieldInfo_Literal_Int && l.kind != types.SoqlFieldInfo_ParameterizedValue {
						l = g.genLiteral(false)
					}
					c.a.args = append(c.a.args, l)
				}
			}
		}
	} else if g.p(15) {
		c.a = g.genFn(q, 2, 1)
	} else {
		c.a = &vOperand{kind: types.SoqlFieldInfo_Field, name: g.genName(q, 2)}
	}
	c.cmp = g.pick("=", "!=", "<", "<=", ">", ">=", "like", "not like", "in", "not in", "includes", "excludes", "=", "=", "<", ">")
	switch {
	case !having && g.p(5): // any operator with any operand
		c.b = g.genLiteral(false)
		if g.p(40) {
			c.b = g.genList()
		} else if g.p(40) {
			c.b = &vOperand{kind: types.SoqlFieldInfo_Field, name: g.genRightName(q)}
		}
	case (c.cmp == "in" || c.cmp == "not in") && g.depth > 0 && !q.isAggSub() && g.p(40):
		g.depth--
		s := g.genQuery(q, 2)
		c.b = &vOperand{kind: types.SoqlFieldInfo_SubQuery, sub: s}
	case c.cmp == "in" || c.cmp == "not in" || c.cmp == "includes" || c.cmp == "excludes":
		c.b = g.genList()
	case !having && g.p(12):
		c.b = &vOperand{kind: types.SoqlFieldInfo_Field, name: g.genRightName(q)}
	case !having && g.p(6):
		c.b = g.genFn(q, 2, 1)
	default:
		c.b = g.genLiteral(false)
	}
	return c
}

func (q *vQuery) isAggSub() bool { return false }

func (g *vGen) genRightName(q *vQuery) vName {
	for {
		n := g.genName(q, 2)
		// A right operand must not read as the start of a literal.
		up := strings.ToUpper(n.parts[0])
		if up == "NULL" || up == "TRUE" || up == "FALSE" {
			continue
		}
		return n
	}
}

func (g *vGen) genCond(q *vQuery, size int, having bool) *vCond {
	var c *vCond
	switch {
	case size <= 1:
		if g.p(15) {
			c = &vCond{op: "not", l: g.genCmp(q, having)}
		} else {
			c = g.genCmp(q, having)
		}
	case g.p(20):
		c = &vCond{op: "not", l: g.genCond(q, size, having)}
		if g.p(50) {
			c.l.paren = true
		}
	default:
		k := 1 + g.n(size-1)
		c = &vCond{op: g.pick("and", "or")}
		c.l = g.genCond(q, k, having)
		c.r = g.genCond(q, size-k, having)
	}
	if g.p(10) {
		c.paren = true
	}
	return c
}

func (g *vGen) newAlias() string {
	g.aliasNo++
	return g.ident([]string{"a", "al", "Z_", "expr", "$q"}, "") + strconv.Itoa(g.aliasNo)
}

func (g *vGen) genQuery(parent *vQuery, place int) *vQuery {
	q := &vQuery{place: place, parent: parent, objs: map[string]bool{}}
	// FROM
	if place == 1 {
		o := vObj{}
		kid := g.ident(vKids, "_k9")
		o.parts = []string{kid}
		if parent.from[0].alias != "" && g.p(30) {
			o.parts = []string{g.recase(parent.from[0].alias), kid}
		} else if parent.place != 1 && g.p(20) {
			o.parts = []string{g.recase(parent.from[0].parts[0]), kid}
		}
		o.fqn = cat(parent.head(), strings.ToLower(kid))
		if g.p(50) {
			o.alias = g.newAlias()
			g.dead = append(g.dead, vDead{o.alias, q})
		}
		q.from = append(q.from, o)
	} else {
		h := g.ident(vHeads, "_h9")
		o := vObj{parts: []string{g.recase(h)}, fqn: []string{strings.ToLower(h)}}
		if g.p(60) {
			o.alias = g.newAlias()
			g.dead = append(g.dead, vDead{o.alias, q})
		}
		q.from = append(q.from, o)
	}
	q.objs[dotted(q.head())] = true
	if g.p(40) {
		for k := 1 + g.n(2); k > 0; k-- {
			base := q.from[g.n(len(q.from))]
			r := g.ident(vRels, "_r9")
			o := vObj{fqn: cat(base.fqn, strings.ToLower(r))}
			if q.objs[dotted(o.fqn)] {
				continue
			}
			switch {
			case base.alias != "" && g.p(60):
				o.parts = []string{g.recase(base.alias), r}
			case len(base.fqn) == len(q.head()) && place != 1 && g.p(50):
				o.parts = []string{g.recase(q.from[0].parts[0]), r}
			case len(base.fqn) == len(q.head()) && place != 1:
				o.parts = []string{r}
			default:
				continue
			}
			if g.p(20) {
				// the object in between is not listed
				r2 := g.ident(vRels, "_r9")
				o.parts = cat(o.parts, r2)
				o.fqn = cat(o.fqn, strings.ToLower(r2))
				if q.objs[dotted(o.fqn)] {
					continue
				}
			}
			if g.p(80) {
				o.alias = g.newAlias()
				g.dead = append(g.dead, vDead{o.alias, q})
			}
			q.from = append(q.from, o)
			q.addPath(o.fqn)
		}
	}
	// GROUP BY first, because it decides what may be selected
	grouped := g.p(18)
	if grouped {
		seen := map[string]bool{}
		for k := 1 + g.n(2); k > 0; k-- {
			n := g.genName(q, 0)
			if !strings.HasPrefix(dotted(n.fqn), dotted(q.head())+"\x00") || seen[dotted(n.fqn)] {
				continue
			}
			seen[dotted(n.fqn)] = true
			q.group = append(q.group, n)
		}
		grouped = len(q.group) > 0
	}
	counted := !grouped && g.p(8)
	q.isAgg = grouped || counted
	alias := func() string {
		if g.p(30) {
			return g.newAlias()
		}
		return ""
	}
	ni := 1 + g.n(3)
	for i := 0; i < ni; i++ {
		switch {
		case q.isAgg && g.p(50):
			f := g.pick("count", "Count", "COUNT_DISTINCT")
			if !grouped || g.p(50) {
				o := &vOperand{kind: types.SoqlFieldInfo_Function, fn: f}
				if strings.ToLower(f) != "count" || g.p(70) {
					o.args = []*vOperand{{kind: types.SoqlFieldInfo_Field, name: g.genName(q, 1)}}
				}
				q.items = append(q.items, vItem{o: o, alias: alias()})
				break
			}
			fallthrough
		case grouped:
			n := q.group[g.n(len(q.group))]
			q.items = append(q.items, vItem{o: &vOperand{kind: types.SoqlFieldInfo_Field, name: n}, alias: alias()})
		case counted:
			o := &vOperand{kind: types.SoqlFieldInfo_Function, fn: g.pick("max", "foo"), args: []*vOperand{{kind: types.SoqlFieldInfo_Field, name: g.genName(q, 1)}}}
			q.items = append(q.items, vItem{o: o, alias: alias()})
		case g.depth > 0 && g.p(18):
			g.depth--
			s := g.genQuery(q, 1)
			q.items = append(q.items, vItem{o: &vOperand{kind: types.SoqlFieldInfo_SubQuery, sub: s}, alias: alias()})
		case g.p(20):
			q.items = append(q.items, vItem{o: g.genFn(q, 1, 2), alias: alias()})
		case g.p(4):
			q.items = append(q.items, vItem{o: &vOperand{kind: types.SoqlFieldInfo_FieldSet, fn: g.recase("fields"), name: vName{parts: []string{"Std"}, fqn: cat(q.head(), "std")}}})
		default:
			n := g.genName(q, 0)
			q.items = append(q.items, vItem{o: &vOperand{kind: types.SoqlFieldInfo_Field, name: n}, alias: alias()})
		}
	}
	if counted {
		has := false
		for _, it := range q.items {
			if l := strings.ToLower(it.o.fn); l == "count" || l == "count_distinct" {
				has = true
			}
		}
		if !has {
			q.items = append(q.items, vItem{o: &vOperand{kind: types.SoqlFieldInfo_Function, fn: "count"}})
		}
		g.r.Shuffle(len(q.items), func(i, j int) { q.items[i], q.items[j] = q.items[j], q.items[i] })
	}
	if g.p(70) {
		q.where = g.genCond(q, 1+g.n(5), false)
	}
	if grouped && g.p(50) {
		q.having = g.genCond(q, 1+g.n(3), true)
	}
	if g.p(30) {
		seen := map[string]bool{}
		for k := 1 + g.n(2); k > 0; k-- {
			var o vOrder
			if g.p(25) {
				var c []vItem
				for _, it := range q.items {
					if it.alias != "" && it.o.kind == types.SoqlFieldInfo_Field {
						c = append(c, it)
					}
				}
				if len(c) == 0 {
					continue
				}
				it := c[g.n(len(c))]
				o.alias = it.alias
				o.name = vName{parts: []string{g.recase(it.alias)}, fqn: it.o.name.fqn}
			} else {
				o.name = g.genName(q, 3)
			}
			if seen[dotted(o.name.fqn)] || !strings.HasPrefix(dotted(o.name.fqn), dotted(q.head())+"\x00") {
				continue
			}
			seen[dotted(o.name.fqn)] = true
			o.dir = g.pick("", "", "asc", "desc")
			o.nulls = g.pick("", "", "nulls first", "nulls last")
			q.order = append(q.order, o)
		}
	}
	num := func() vNum {
		if !g.p(25) {
			return vNum{}
		}
		if g.p(30) {
			return vNum{set: true, param: g.ident([]string{"Lim", "off", "p1"}, "")}
		}
		if g.p(15) {
			return vNum{set: true, n: g.r.Int63() >> uint(g.n(63))}
		}
		return vNum{set: true, n: int64(g.n(5000))}
	}
	q.offset, q.limit = num(), num()
	q.offFirst = g.p(50)
	if g.p(15) {
		q.forKw = strings.Fields(g.pick("for view", "for reference", "for view , reference", "for reference , view",
			"for update", "for update tracking", "for update viewstat", "for update tracking , viewstat", "for update viewstat , tracking"))
	}
	return q
}

// ---------------------------------------------------------------- printing

type vPrinter struct {
	g    *vGen
	toks []vTok
}

func (p *vPrinter) kw(words ...string) {
	for i, w := range words {
		if i > 0 {
			p.sp()
		}
		p.toks = append(p.toks, vTok{tKw, w})
	}
}
func (p *vPrinter) sp()           { p.toks = append(p.toks, vTok{tSpace, " "}) }
func (p *vPrinter) pu(s string)   { p.toks = append(p.toks, vTok{tPunct, s}) }
func (p *vPrinter) name(s string) { p.toks = append(p.toks, vTok{tName, s}) }
func (p *vPrinter) names(parts []string) {
	for i, s := range parts {
		if i > 0 {
			p.pu(".")
		}
		p.name(s)
	}
}

func (p *vPrinter) operand(o *vOperand) {
	switch o.kind {
	case types.SoqlFieldInfo_Field:
		p.names(o.name.parts)
	case types.SoqlFieldInfo_FieldSet:
		p.name(o.fn)
		p.pu("(")
		p.names(o.name.parts)
		p.pu(")")
	case types.SoqlFieldInfo_Function:
		p.name(o.fn)
		p.pu("(")
		for i, a := range o.args {
			if i > 0 {
				p.pu(",")
			}
			p.operand(a)
		}
		p.pu(")")
	case types.SoqlFieldInfo_SubQuery:
		p.pu("(")
		p.query(o.sub)
		p.pu(")")
	default:
		p.toks = append(p.toks, o.toks...)
	}
}

func prec(c *vCond) int {
	switch c.op {
	case "or":
		return 1
	case "and":
		return 2
	case "not":
		return 3
	}
	return 4
}

// cond prints c where the context binds with strength min.
func (p *vPrinter) cond(c *vCond, min int) {
	if c.paren || prec(c) < min {
		p.pu("(")
		p.condIn(c)
		p.pu(")")
		return
	}
	p.condIn(c)
}

func (p *vPrinter) condIn(c *vCond) {
	switch c.op {
	case "and":
		p.cond(c.l, 2)
		p.sp()
		p.kw("and")
		p.sp()
		p.cond(c.r, 3) // left associative
	case "or":
		p.cond(c.l, 1)
		p.sp()
		p.kw("or")
		p.sp()
		p.cond(c.r, 2)
	case "not":
		p.kw("not")
		p.sp()
		p.cond(c.l, 4)
	default:
		p.operand(c.a)
		switch c.cmp {
		case "=", "!=", "<", "<=", ">", ">=":
			p.pu(c.cmp)
		case "not like":
			p.sp()
			p.kw("not", "like")
			p.sp()
		case "not in":
			p.sp()
			p.kw("not", "in")
			p.sp()
		default:
			p.sp()
			p.kw(c.cmp)
			p.sp()
		}
		p.operand(c.b)
	}
}

func (p *vPrinter) num(n vNum) {
	if n.param != "" {
		p.pu(":")
		p.name(n.param)
	} else {
		p.toks = append(p.toks, vTok{tLit, strconv.FormatInt(n.n, 10)})
	}
}

func (p *vPrinter) query(q *vQuery) {
	p.kw("select")
	p.sp()
	for i, it := range q.items {
		if i > 0 {
			p.pu(",")
		}
		p.operand(it.o)
		if it.alias != "" {
			p.sp()
			p.name(it.alias)
		}
	}
	p.sp()
	p.kw("from")
	p.sp()
	for i, o := range q.from {
		if i > 0 {
			p.pu(",")
		}
		p.names(o.parts)
		if o.alias != "" {
			p.sp()
			p.name(o.alias)
		}
	}
	if q.where != nil {
		p.sp()
		p.kw("where")
		p.sp()
		p.cond(q.where, 0)
	}
	if q.group != nil {
		p.sp()
		p.kw("group", "by")
		p.sp()
		for i, n := range q.group {
			if i > 0 {
				p.pu(",")
			}
			p.names(n.parts)
		}
	}
	if q.having != nil {
		p.sp()
		p.kw("having")
		p.sp()
		p.cond(q.having, 0)
	}
	if q.order != nil {
		p.sp()
		p.kw("order", "by")
		p.sp()
		for i, o := range q.order {
			if i > 0 {
				p.pu(",")
			}
			p.names(o.name.parts)
			if o.dir != "" {
				p.sp()
				p.kw(o.dir)
			}
			if o.nulls != "" {
				p.sp()
				p.kw(strings.Fields(o.nulls)...)
			}
		}
	}
	off := func() {
		if q.offset.set {
			p.sp()
			p.kw("offset")
			p.sp()
			p.num(q.offset)
		}
	}
	lim := func() {
		if q.limit.set {
			p.sp()
			p.kw("limit")
			p.sp()
			p.num(q.limit)
		}
	}
	if q.offFirst {
		off()
		lim()
	} else {
		lim()
		off()
	}
	if q.forKw != nil {
		p.sp()
		for i, w := range q.forKw {
			if w == "," {
				p.pu(",")
				continue
			}
			if i > 0 && q.forKw[i-1] != "," {
				p.sp()
			}
			p.kw(w)
		}
	}
}

var vSpaces = []string{" ", "  ", "\t", "\n", "\r\n", " \n\t ", "/* c */", "/**/", "-- x 'y' (\n", " /* where */ ", "\n--\n", "--\r\n", "/*\n*/ ", "\r", "-- x\r", "--\r\t", "/***/", "/*/ * -- */", "/* ' ( \" */", "--/*\n", "/*--*/", "\n\n"}

// render writes the tokens. mode 0: single spaces, keywords as is;
// mode 1: random keyword case and random space/comment mixes.
func (g *vGen) render(toks []vTok, mode int) string {
	var b strings.Builder
	for i, t := range toks {
		switch t.k {
		case tSpace:
			if mode == 0 {
				b.WriteByte(' ')
			} else {
				for k := 1 + g.n(2); k > 0; k-- {
					b.WriteString(vSpaces[g.n(len(vSpaces))])
				}
			}
		case tKw:
			if mode == 0 {
				b.WriteString(t.s)
			} else {
				b.WriteString(g.recase(t.s))
			}
		default:
			b.WriteString(t.s)
		}
		_ = i
	}
	return b.String()
}

func (g *vGen) tokens(q *vQuery) []vTok {
	p := &vPrinter{g: g}
	p.query(q)
	// punctuation may be surrounded by optional space
	var out []vTok
	for _, t := range p.toks {
		if t.k == tPunct && (t.s == "," || t.s == "=" || t.s == "<" || t.s == "!=" || t.s == "<=" || t.s == ">" || t.s == ">=" || t.s == ")") && g.p(20) ||
			t.k == tPunct && (t.s == "." || t.s == "(") && len(out) > 0 && out[len(out)-1].k == tName && g.p(10) {
			out = append(out, vTok{tSpace, " "})
		}
		out = append(out, t)
		if t.k == tPunct && (t.s == "," || t.s == "=" || t.s == "(" || t.s == ">=" || t.s == "." || t.s == ":") && g.p(20) {
			out = append(out, vTok{tSpace, " "})
		}
	}
	return out
}
