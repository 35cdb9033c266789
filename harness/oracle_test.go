package parser_test

// Executable contracts: for an accepted query, each function states one
// property as a postcondition of parser.Parse and returns "" if it holds.
// "struct" oracles look at the result only; "model" oracles compare with
// what the generator says about the text it wrote.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// ---------------------------------------------------------------- helpers

func isBin(o types.SoqlConditionOpcode) bool { return o >= types.SoqlConditionOpcode_And }
func isCmp(o types.SoqlConditionOpcode) bool {
	return o >= types.SoqlConditionOpcode_Eq && o <= types.SoqlConditionOpcode_Excludes
}

var vCompl = map[types.SoqlConditionOpcode]types.SoqlConditionOpcode{
	types.SoqlConditionOpcode_NotEq: types.SoqlConditionOpcode_Eq, types.SoqlConditionOpcode_Ge: types.SoqlConditionOpcode_Lt,
	types.SoqlConditionOpcode_Gt: types.SoqlConditionOpcode_Le, types.SoqlConditionOpcode_NotLike: types.SoqlConditionOpcode_Like,
	types.SoqlConditionOpcode_NotIn: types.SoqlConditionOpcode_In, types.SoqlConditionOpcode_Excludes: types.SoqlConditionOpcode_Includes,
}

// vNode is a condition tree recovered from a postfix list.
type vNode struct {
	op   types.SoqlConditionOpcode
	l, r *vNode
	a, b *types.SoqlFieldInfo
	pos  int // position of the operator in the list
}

// vTree checks that cs is one well-formed postfix condition made of comparisons, And and Or only.
func vTree(cs []types.SoqlCondition) (*vNode, string) {
	type ent struct {
		n *vNode
		v *types.SoqlFieldInfo
	}
	var st []ent
	for i := range cs {
		c := &cs[i]
		switch {
		case c.Opcode == types.SoqlConditionOpcode_FieldInfo:
			st = append(st, ent{v: &c.Value})
		case isCmp(c.Opcode):
			if len(st) < 2 || st[len(st)-1].v == nil || st[len(st)-2].v == nil {
				return nil, fmt.Sprintf("entry %d (%v): comparison without two operands", i, c.Opcode)
			}
			n := &vNode{op: c.Opcode, a: st[len(st)-2].v, b: st[len(st)-1].v, pos: i}
			st = append(st[:len(st)-2], ent{n: n})
		case c.Opcode == types.SoqlConditionOpcode_And || c.Opcode == types.SoqlConditionOpcode_Or:
			if len(st) < 2 || st[len(st)-1].n == nil || st[len(st)-2].n == nil {
				return nil, fmt.Sprintf("entry %d (%v): logical operator without two conditions", i, c.Opcode)
			}
			n := &vNode{op: c.Opcode, l: st[len(st)-2].n, r: st[len(st)-1].n, pos: i}
			st = append(st[:len(st)-2], ent{n: n})
		default:
			return nil, fmt.Sprintf("entry %d: unexpected opcode %v", i, c.Opcode)
		}
	}
	if len(cs) == 0 {
		return nil, ""
	}
	if len(st) != 1 || st[0].n == nil {
		return nil, fmt.Sprintf("not a single condition (%d left on the stack)", len(st))
	}
	return st[0].n, ""
}

func vOperandKey(f *types.SoqlFieldInfo) string {
	switch f.Type {
	case types.SoqlFieldInfo_Field:
		return "F:" + strings.ToLower(dotted(f.Name))
	case types.SoqlFieldInfo_SubQuery:
		return fmt.Sprintf("Q:%p", f.SubQuery)
	case types.SoqlFieldInfo_Function:
		s := "f:" + strings.ToLower(dotted(f.Name)) + "("
		for i := range f.Parameters {
			s += vOperandKey(&f.Parameters[i]) + ","
		}
		return s + ")"
	}
	return fmt.Sprintf("%v:%v:%#v", f.Type, f.Name, f.Value)
}

type vAtom struct {
	key string
	neg bool
}

func (n *vNode) atom() vAtom {
	op, neg := n.op, false
	if p, ok := vCompl[op]; ok {
		op, neg = p, true
	}
	return vAtom{key: op.String() + "|" + vOperandKey(n.a) + "|" + vOperandKey(n.b), neg: neg}
}

func (n *vNode) leaves(f func(*vNode)) {
	if n == nil {
		return
	}
	if isCmp(n.op) {
		f(n)
		return
	}
	n.l.leaves(f)
	n.r.leaves(f)
}

// compiled form: quick evaluation under bit assignments
type vEval struct {
	op   types.SoqlConditionOpcode
	l, r *vEval
	bit  int
	neg  bool
}

func (n *vNode) compile(ids map[string]int) *vEval {
	if n == nil {
		return nil
	}
	if isCmp(n.op) {
		a := n.atom()
		id, ok := ids[a.key]
		if !ok {
			id = len(ids)
			ids[a.key] = id
		}
		return &vEval{op: types.SoqlConditionOpcode_Eq, bit: id, neg: a.neg}
	}
	return &vEval{op: n.op, l: n.l.compile(ids), r: n.r.compile(ids)}
}

func (e *vEval) eval(v uint64) bool {
	if e == nil {
		return true
	}
	switch e.op {
	case types.SoqlConditionOpcode_And:
		return e.l.eval(v) && e.r.eval(v)
	case types.SoqlConditionOpcode_Or:
		return e.l.eval(v) || e.r.eval(v)
	}
	return (v>>uint(e.bit)&1 == 1) != e.neg
}

// assignments calls f for every assignment of n bits (n <= 12), or for 4096 pseudo-random ones.
func vAssignments(n int, f func(v uint64) bool) {
	if n <= 12 {
		for v := uint64(0); v < 1<<uint(n); v++ {
			if !f(v) {
				return
			}
		}
		return
	}
	x := uint64(88172645463325252)
	for i := 0; i < 4096; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		v := x
		if i%4 == 1 {
			v &= x >> 5
		} else if i%4 == 2 {
			v |= x >> 7
		}
		if !f(v) {
			return
		}
	}
}

func show(cs []types.SoqlCondition) string {
	var b []string
	for i := range cs {
		if cs[i].Opcode == types.SoqlConditionOpcode_FieldInfo {
			v := &cs[i].Value
			switch v.Type {
			case types.SoqlFieldInfo_Field:
				b = append(b, strings.Join(v.Name, "."))
			case types.SoqlFieldInfo_Function:
				b = append(b, strings.Join(v.Name, ".")+"()")
			case types.SoqlFieldInfo_SubQuery:
				b = append(b, "(subquery)")
			default:
				b = append(b, fmt.Sprintf("%v%v", v.Value, v.Name))
			}
		} else {
			b = append(b, cs[i].Opcode.String())
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}

// vSubs lists the direct subqueries of q in the order of numbering.
func vSubs(q *types.SoqlQuery) (sel, cond []*types.SoqlQuery) {
	for i := range q.Fields {
		if q.Fields[i].Type == types.SoqlFieldInfo_SubQuery {
			sel = append(sel, q.Fields[i].SubQuery)
		}
	}
	for _, cs := range [][]types.SoqlCondition{q.Where, q.Having} {
		for i := range cs {
			if cs[i].Opcode == types.SoqlConditionOpcode_FieldInfo && cs[i].Value.Type == types.SoqlFieldInfo_SubQuery {
				cond = append(cond, cs[i].Value.SubQuery)
			}
		}
	}
	return
}

// vWalk visits q and all its subqueries; place as in vQuery.
func vWalk(q *types.SoqlQuery, f func(q, parent *types.SoqlQuery, place, depth int) string) string {
	var rec func(q, parent *types.SoqlQuery, place, depth int) string
	rec = func(q, parent *types.SoqlQuery, place, depth int) string {
		if q == nil {
			return "nil subquery"
		}
		if e := f(q, parent, place, depth); e != "" {
			return e
		}
		sel, cond := vSubs(q)
		for _, s := range sel {
			if e := rec(s, q, 1, depth+1); e != "" {
				return e
			}
		}
		for _, s := range cond {
			if e := rec(s, q, 2, depth+1); e != "" {
				return e
			}
		}
		return ""
	}
	return rec(q, nil, 0, 1)
}

func eqNames(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !strings.EqualFold(a[i], b[i]) {
			return false
		}
	}
	return true
}

func owner(f *types.SoqlFieldInfo) []string { return f.Name[:len(f.Name)-1] }

// ---------------------------------------------------------------- struct oracles

func oC01(q *types.SoqlQuery) string {
	if q.Meta == nil {
		return "no meta information"
	}
	return vWalk(q, func(q, _ *types.SoqlQuery, place, _ int) string {
		if len(q.From) == 0 {
			return "query without FROM object"
		}
		if len(q.Fields) == 0 {
			return "query without fields"
		}
		for _, cs := range [][]types.SoqlCondition{q.Where, q.Having, q.PostProcessWhere} {
			if _, e := vTree(cs); e != "" {
				return "malformed condition list " + show(cs) + ": " + e
			}
		}
		for i := range q.From {
			if q.From[i].PerObjectQuery == nil {
				return "object without its own query"
			}
			if _, e := vTree(q.From[i].PerObjectQuery.Where); e != "" {
				return "malformed per-object condition list " + show(q.From[i].PerObjectQuery.Where) + ": " + e
			}
		}
		return ""
	})
}

func oC04(q *types.SoqlQuery) string {
	return vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		w, e := vTree(q.Where)
		if e != "" {
			return "WHERE " + show(q.Where) + ": " + e
		}
		for i := range q.From {
			o := &q.From[i]
			if o.PerObjectQuery == nil {
				return "object without its own query"
			}
			pw := o.PerObjectQuery.Where
			p, e := vTree(pw)
			if e != "" {
				return "per-object filter " + show(pw) + " of " + strings.Join(o.Name, ".") + ": " + e
			}
			ids := map[string]int{}
			we := w.compile(ids)
			nw := len(ids)
			pe := p.compile(ids)
			if len(ids) != nw {
				return "per-object filter " + show(pw) + " has a comparison that is not in WHERE " + show(q.Where)
			}
			bad := ""
			p.leaves(func(n *vNode) {
				for _, x := range []*types.SoqlFieldInfo{n.a, n.b} {
					switch x.Type {
					case types.SoqlFieldInfo_Field:
						if !eqNames(owner(x), o.Name) {
							bad = "per-object filter of " + strings.Join(o.Name, ".") + " mentions " + strings.Join(x.Name, ".")
						}
					case types.SoqlFieldInfo_Function, types.SoqlFieldInfo_SubQuery:
						bad = "per-object filter of " + strings.Join(o.Name, ".") + " has a " + x.Type.String() + " operand"
					}
				}
			})
			if bad != "" {
				return bad
			}
			vAssignments(nw, func(v uint64) bool {
				if we.eval(v) && !pe.eval(v) {
					bad = fmt.Sprintf("per-object filter %s of %s is not implied by WHERE %s (assignment %b)", show(pw), strings.Join(o.Name, "."), show(q.Where), v)
					return false
				}
				return true
			})
			if bad != "" {
				return bad
			}
			// every pure top-level conjunct is present
			var have []string
			var conj func(n *vNode, f func(*vNode))
			conj = func(n *vNode, f func(*vNode)) {
				if n == nil {
					return
				}
				if n.op == types.SoqlConditionOpcode_And {
					conj(n.l, f)
					conj(n.r, f)
					return
				}
				f(n)
			}
			conj(p, func(n *vNode) { have = append(have, n.str()) })
			conj(w, func(n *vNode) {
				pure := true
				n.leaves(func(m *vNode) {
					for _, x := range []*types.SoqlFieldInfo{m.a, m.b} {
						switch x.Type {
						case types.SoqlFieldInfo_Field:
							if !eqNames(owner(x), o.Name) {
								pure = false
							}
						case types.SoqlFieldInfo_Function, types.SoqlFieldInfo_SubQuery:
							pure = false
						}
					}
				})
				if !pure {
					return
				}
				s := n.str()
				for k := range have {
					if have[k] == s {
						have = append(have[:k], have[k+1:]...)
						return
					}
				}
				bad = "conjunct " + s + " of WHERE is missing in the filter " + show(pw) + " of " + strings.Join(o.Name, ".")
			})
			if bad != "" {
				return bad
			}
		}
		return ""
	})
}

func (n *vNode) str() string {
	if isCmp(n.op) {
		a := n.atom()
		return fmt.Sprintf("%v{%s}", a.neg, strings.ReplaceAll(a.key, "\x00", "."))
	}
	return "(" + n.l.str() + " " + n.op.String() + " " + n.r.str() + ")"
}

func oC05(q *types.SoqlQuery) string {
	return vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		w, e := vTree(q.Where)
		if e != "" {
			return "WHERE " + show(q.Where) + ": " + e
		}
		ids := map[string]int{}
		we := w.compile(ids)
		nw := len(ids)
		post, e := vTree(q.PostProcessWhere)
		if e != "" {
			return "post filter " + show(q.PostProcessWhere) + ": " + e
		}
		es := []*vEval{post.compile(ids)}
		all := show(q.PostProcessWhere)
		for i := range q.From {
			if q.From[i].PerObjectQuery == nil {
				return "object without its own query"
			}
			pw := q.From[i].PerObjectQuery.Where
			p, e := vTree(pw)
			if e != "" {
				return "per-object filter " + show(pw) + ": " + e
			}
			es = append(es, p.compile(ids))
			all += " & " + strings.Join(q.From[i].Name, ".") + show(pw)
		}
		if len(ids) != nw {
			return "a filter has a comparison that is not in WHERE: " + all
		}
		bad := ""
		vAssignments(nw, func(v uint64) bool {
			c := true
			for _, x := range es {
				c = c && x.eval(v)
			}
			if c != we.eval(v) {
				bad = fmt.Sprintf("filters %s differ from WHERE %s (assignment %b)", all, show(q.Where), v)
				return false
			}
			return true
		})
		return bad
	})
}

func oC06(q *types.SoqlQuery) string {
	vg := q.Meta.ViewGraph
	type vinfo struct {
		head, inner bool
		parent, qid int
	}
	exp := map[int]*vinfo{}
	e := vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		for i := range q.From {
			o := &q.From[i]
			has := false
			for j := range q.Where {
				c := &q.Where[j]
				if c.Opcode == types.SoqlConditionOpcode_FieldInfo && c.Value.Type == types.SoqlFieldInfo_Field && eqNames(owner(&c.Value), o.Name) {
					has = true
				}
			}
			if has != o.HasConditions {
				return fmt.Sprintf("object %s: has-conditions flag is %v, WHERE is %s", strings.Join(o.Name, "."), o.HasConditions, show(q.Where))
			}
			inner := i != 0 && len(o.PerObjectQuery.Where) > 0
			if inner != o.InnerJoin {
				return fmt.Sprintf("object %s: inner-join flag is %v, own filter is %s", strings.Join(o.Name, "."), o.InnerJoin, show(o.PerObjectQuery.Where))
			}
			v := exp[o.ViewId]
			if v == nil {
				v = &vinfo{parent: o.ParentViewId, qid: q.QueryId}
				exp[o.ViewId] = v
			}
			if i == 0 {
				v.head = true
			}
			v.inner = v.inner || inner
		}
		return ""
	})
	if e != "" {
		return e
	}
	for id, v := range exp {
		want := false
		for id2, v2 := range exp {
			if !v2.inner || v2.qid != v.qid {
				continue
			}
			for x, k := id2, 0; x != 0 && k < 1000; k++ {
				if x == id {
					want = true
				}
				w := exp[x]
				if w == nil || w.head {
					break
				}
				x = w.parent
			}
		}
		want = want && !v.head
		if leaf := vg[id]; leaf.InnerJoin != want {
			return fmt.Sprintf("view %d (%s): inner-join is %v, want %v", id, leaf.Name, leaf.InnerJoin, want)
		}
	}
	return ""
}

// vRefs visits every plain field reference of q itself (not of subqueries), and every expression slot.
func vRefs(q *types.SoqlQuery, f func(where string, x *types.SoqlFieldInfo)) {
	var rec func(where string, x *types.SoqlFieldInfo)
	rec = func(where string, x *types.SoqlFieldInfo) {
		if x.Type == types.SoqlFieldInfo_Field {
			f(where, x)
		} else if x.Type == types.SoqlFieldInfo_Function {
			for i := range x.Parameters {
				rec(where+" argument", &x.Parameters[i])
			}
		}
	}
	for i := range q.Fields {
		rec("SELECT", &q.Fields[i])
	}
	for i := range q.Where {
		if q.Where[i].Opcode == types.SoqlConditionOpcode_FieldInfo {
			rec("WHERE", &q.Where[i].Value)
		}
	}
	for i := range q.GroupBy {
		rec("GROUP BY", &q.GroupBy[i])
	}
	for i := range q.Having {
		if q.Having[i].Opcode == types.SoqlConditionOpcode_FieldInfo {
			rec("HAVING", &q.Having[i].Value)
		}
	}
	for i := range q.OrderBy {
		rec("ORDER BY", &q.OrderBy[i].Field)
	}
}

func oC07(q *types.SoqlQuery) string {
	chain := map[*types.SoqlQuery]*types.SoqlQuery{}
	return vWalk(q, func(q, parent *types.SoqlQuery, place, _ int) string {
		if place == 1 {
			chain[q] = parent
		}
		for i := range q.From {
			o := &q.From[i]
			first := map[string]bool{}
			_ = first
			for j := range o.PerObjectQuery.Fields {
				x := &o.PerObjectQuery.Fields[j]
				if x.Type != types.SoqlFieldInfo_Field && x.Type != types.SoqlFieldInfo_FieldSet {
					return "per-object field list of " + strings.Join(o.Name, ".") + " has a " + x.Type.String()
				}
				if !eqNames(owner(x), o.Name) {
					return "per-object field list of " + strings.Join(o.Name, ".") + " has " + strings.Join(x.Name, ".")
				}
				if x.Type == types.SoqlFieldInfo_Field && (x.ColIndex < 0 || x.ColIndex >= len(o.PerObjectQuery.Fields) || !eqNames(o.PerObjectQuery.Fields[x.ColIndex].Name, x.Name)) {
					return fmt.Sprintf("per-object field %s at %d has column index %d", strings.Join(x.Name, "."), j, x.ColIndex)
				}
			}
		}
		bad := ""
		vRefs(q, func(where string, x *types.SoqlFieldInfo) {
			if bad != "" {
				return
			}
			found := false
			for s := q; s != nil && !found; s = chain[s] {
				for i := range s.From {
					if eqNames(s.From[i].Name, owner(x)) {
						fs := s.From[i].PerObjectQuery.Fields
						found = true
						if x.ColIndex < 0 || x.ColIndex >= len(fs) {
							bad = fmt.Sprintf("%s field %s: column index %d out of range of its object's %d fields", where, strings.Join(x.Name, "."), x.ColIndex, len(fs))
						} else if !eqNames(fs[x.ColIndex].Name, x.Name) {
							bad = fmt.Sprintf("%s field %s: column index %d is %s", where, strings.Join(x.Name, "."), x.ColIndex, strings.Join(fs[x.ColIndex].Name, "."))
						}
					}
				}
			}
			if !found {
				bad = where + " field " + strings.Join(x.Name, ".") + ": its object is not in FROM"
				return
			}
			inFields := false
			for i := range q.Fields {
				if q.Fields[i].Type == types.SoqlFieldInfo_Field && eqNames(q.Fields[i].Name, x.Name) {
					inFields = true
				}
			}
			if !inFields && bad == "" {
				bad = where + " field " + strings.Join(x.Name, ".") + " is not in the field list of the query"
			}
		})
		return bad
	})
}

func oC08(q *types.SoqlQuery) string {
	m := q.Meta
	nq := 1
	type scope struct{ cols, views map[string]int }
	scopes := map[*types.SoqlQuery]*scope{}
	allView := map[int]bool{}
	allCol := map[int]string{}
	maxView := 0
	e := vWalk(q, func(q, parent *types.SoqlQuery, place, _ int) string {
		if q.QueryId != nq {
			return fmt.Sprintf("query id %d, want %d", q.QueryId, nq)
		}
		nq++
		sc := &scope{map[string]int{}, map[string]int{}}
		if place == 1 {
			sc.cols = scopes[parent].cols
			for k, id := range scopes[parent].views {
				sc.views[k] = id
			}
		}
		scopes[q] = sc
		own := map[string]bool{}
		for i := range q.From {
			k := strings.ToLower(dotted(q.From[i].Name))
			id := q.From[i].ViewId
			if old, ok := sc.views[k]; ok {
				if !own[k] {
					return fmt.Sprintf("object %v is also an object of the outer query", q.From[i].Name)
				}
				if old != id {
					return fmt.Sprintf("object %v has view ids %d and %d", q.From[i].Name, old, id)
				}
			} else {
				if allView[id] {
					return fmt.Sprintf("view id %d used twice", id)
				}
				if id != maxView+1 {
					return fmt.Sprintf("view id %d, want %d", id, maxView+1)
				}
				maxView++
				allView[id] = true
				sc.views[k] = id
				own[k] = true
			}
			if q.From[i].PerObjectQuery == nil || len(q.From[i].PerObjectQuery.From) != 1 || q.From[i].PerObjectQuery.From[0].ViewId != id {
				return fmt.Sprintf("per-object query of view %d does not have that view id", id)
			}
		}
		bad := ""
		vRefs(q, func(where string, x *types.SoqlFieldInfo) {
			if bad != "" {
				return
			}
			k := strings.ToLower(dotted(x.Name))
			if x.ColumnId < 1 || x.ColumnId >= m.NextColumnId {
				bad = fmt.Sprintf("%s field %v: column id %d not in 1..%d", where, x.Name, x.ColumnId, m.NextColumnId-1)
			} else if old, ok := sc.cols[k]; ok && old != x.ColumnId {
				bad = fmt.Sprintf("field %v has column ids %d and %d", x.Name, old, x.ColumnId)
			} else if !ok {
				if o, dup := allCol[x.ColumnId]; dup {
					bad = fmt.Sprintf("column id %d used for %v and %v", x.ColumnId, x.Name, o)
				}
				sc.cols[k] = x.ColumnId
				allCol[x.ColumnId] = k
			}
			if id, ok := sc.views[strings.ToLower(dotted(owner(x)))]; bad == "" && (!ok || id != x.ViewId) {
				bad = fmt.Sprintf("%s field %v: view id %d, its object has %d", where, x.Name, x.ViewId, id)
			}
		})
		for i := range q.Fields {
			x := &q.Fields[i]
			if x.ColumnId < 1 || x.ColumnId >= m.NextColumnId {
				bad = fmt.Sprintf("select item %d: column id %d not in 1..%d", i, x.ColumnId, m.NextColumnId-1)
			}
			if x.Type != types.SoqlFieldInfo_Field {
				if o, dup := allCol[x.ColumnId]; dup && !x.NotSelected {
					bad = fmt.Sprintf("column id %d of a %v item is also used for %v", x.ColumnId, x.Type, o)
				}
				if _, ok := allCol[x.ColumnId]; !ok {
					allCol[x.ColumnId] = "item " + strconv.Itoa(q.QueryId) + "/" + strconv.Itoa(i)
				}
			}
		}
		return bad
	})
	if e != "" {
		return e
	}
	if nq != m.NextQueryId {
		return fmt.Sprintf("next query id %d, want %d", m.NextQueryId, nq)
	}
	if maxView+1 != m.NextViewId {
		return fmt.Sprintf("next view id %d, want %d", m.NextViewId, maxView+1)
	}
	return ""
}

func oC09(q *types.SoqlQuery) string {
	m := q.Meta
	n, maxD, maxV := 0, 0, 0
	views := map[int]bool{}
	e := vWalk(q, func(q, parent *types.SoqlQuery, place, depth int) string {
		n++
		if depth > maxD {
			maxD = depth
		}
		l, ok := m.QueryGraph[q.QueryId]
		pid := 0
		if parent != nil {
			pid = parent.QueryId
		}
		if !ok || l.ParentQueryId != pid || l.Depth != depth || l.IsConditional != (place == 2) {
			return fmt.Sprintf("query graph entry %d is %+v (present %v), want parent %d depth %d conditional %v", q.QueryId, struct {
				P, D int
				C    bool
			}{l.ParentQueryId, l.Depth, l.IsConditional}, ok, pid, depth, place == 2)
		}
		if l.Query != q {
			return fmt.Sprintf("query graph entry %d points to another query", q.QueryId)
		}
		if place == 1 && q.Parent != parent || place != 1 && q.Parent != nil {
			return fmt.Sprintf("parent link of query %d is wrong", q.QueryId)
		}
		for i := range q.From {
			o := &q.From[i]
			v, ok := m.ViewGraph[o.ViewId]
			if !ok {
				return fmt.Sprintf("no view graph entry for view %d", o.ViewId)
			}
			views[o.ViewId] = true
			if v.Depth > maxV {
				maxV = v.Depth
			}
			if v.QueryId != q.QueryId || v.QueryDepth != depth || v.Query != q {
				return fmt.Sprintf("view %d: query id %d depth %d, want %d and %d", o.ViewId, v.QueryId, v.QueryDepth, q.QueryId, depth)
			}
			if !strings.EqualFold(v.Name, o.Name[len(o.Name)-1]) {
				return fmt.Sprintf("view %d: name %s, path %v", o.ViewId, v.Name, o.Name)
			}
			if v.Many != (place == 1 && o.ViewId == q.From[0].ViewId) {
				return fmt.Sprintf("view %d: to-many flag %v", o.ViewId, v.Many)
			}
			if v.ParentViewId != o.ParentViewId {
				return fmt.Sprintf("view %d: parent %d in the graph, %d on the object", o.ViewId, v.ParentViewId, o.ParentViewId)
			}
			if len(o.Name) == 1 {
				if v.ParentViewId != 0 {
					return fmt.Sprintf("head view %d has parent %d", o.ViewId, v.ParentViewId)
				}
				if place == 0 && v.Depth != 1 {
					return fmt.Sprintf("head view %d has depth %d", o.ViewId, v.Depth)
				}
				if place == 2 && v.Depth < 2 {
					return fmt.Sprintf("head view %d of a conditional subquery has depth %d", o.ViewId, v.Depth)
				}
			} else {
				p, ok := m.ViewGraph[v.ParentViewId]
				if !ok || p.Object == nil {
					return fmt.Sprintf("view %d (%v) has no parent entry", o.ViewId, o.Name)
				}
				if v.Depth != p.Depth+1 {
					return fmt.Sprintf("view %d depth %d, parent depth %d", o.ViewId, v.Depth, p.Depth)
				}
				if !eqNames(p.Object.Name, o.Name[:len(o.Name)-1]) {
					return fmt.Sprintf("view %d (%v) has parent view %v", o.ViewId, o.Name, p.Object.Name)
				}
			}
		}
		return ""
	})
	if e != "" {
		return e
	}
	if n != len(m.QueryGraph) {
		return fmt.Sprintf("query graph has %d entries for %d queries", len(m.QueryGraph), n)
	}
	if len(views) != len(m.ViewGraph) {
		return fmt.Sprintf("view graph has %d entries for %d views", len(m.ViewGraph), len(views))
	}
	if maxD != m.MaxQueryDepth || maxV != m.MaxViewDepth {
		return fmt.Sprintf("max depths %d/%d, want %d/%d", m.MaxQueryDepth, m.MaxViewDepth, maxD, maxV)
	}
	// NonResult: views of conditional subqueries and below
	return ""
}

// structural part of name resolution
func oC10s(q *types.SoqlQuery) string {
	return vWalk(q, func(q, parent *types.SoqlQuery, place, _ int) string {
		h := q.From[0].Name
		if place != 1 && len(h) != 1 {
			return fmt.Sprintf("head object path %v", h)
		}
		if place == 1 && (len(h) <= len(parent.From[0].Name) || !eqNames(h[:len(parent.From[0].Name)], parent.From[0].Name)) {
			return fmt.Sprintf("head object path %v of a select subquery does not start with %v", h, parent.From[0].Name)
		}
		for i := range q.From {
			n := q.From[i].Name
			if len(n) < len(h) || !eqNames(n[:len(h)], h) {
				if place != 1 { // correlated objects may belong to the parent
					return fmt.Sprintf("object path %v does not start with the head object %v", n, h)
				}
			}
			if i > 1 && len(n) < len(q.From[i-1].Name) {
				return fmt.Sprintf("object %v is listed after its descendant level", n)
			}
		}
		bad := ""
		vRefs(q, func(where string, x *types.SoqlFieldInfo) {
			if bad != "" {
				return
			}
			if len(x.Name) < 2 {
				bad = fmt.Sprintf("%s field name %v is not qualified", where, x.Name)
			}
			root := q
			for root.Parent != nil {
				root = root.Parent
			}
			if bad == "" && !strings.EqualFold(x.Name[0], root.From[0].Name[0]) {
				bad = fmt.Sprintf("%s field path %v does not start with the head object %s", where, x.Name, root.From[0].Name[0])
			}
			for n := 1; n < len(x.Name) && bad == ""; n++ {
				found := false
				for e := q; e != nil && !found; e = e.Parent {
					for i := range e.From {
						found = found || eqNames(e.From[i].Name, x.Name[:n])
					}
				}
				if !found {
					bad = fmt.Sprintf("%s field %v: object %v is in no FROM list", where, x.Name, x.Name[:n])
				}
			}
		})
		return bad
	})
}

func jsonable(q *types.SoqlQuery) bool {
	ok := true
	var val func(v interface{})
	val = func(v interface{}) {
		switch t := v.(type) {
		case float64:
			if math.IsInf(t, 0) || math.IsNaN(t) {
				ok = false
			}
		case string:
			if !utf8.ValidString(t) {
				ok = false
			}
		case time.Time:
			if t.Year() < 0 || t.Year() > 9999 {
				ok = false
			}
		case []types.SoqlListItem:
			for i := range t {
				val(t[i].Value)
			}
		}
	}
	var fld func(x *types.SoqlFieldInfo)
	fld = func(x *types.SoqlFieldInfo) {
		val(x.Value)
		for _, n := range x.Name {
			val(n)
		}
		for i := range x.Parameters {
			fld(&x.Parameters[i])
		}
	}
	val(q.Meta.Source)
	vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		for i := range q.Fields {
			fld(&q.Fields[i])
		}
		for i := range q.From {
			for _, n := range q.From[i].Name {
				val(n)
			}
		}
		for _, cs := range [][]types.SoqlCondition{q.Where, q.Having} {
			for i := range cs {
				fld(&cs[i].Value)
			}
		}
		for i := range q.GroupBy {
			fld(&q.GroupBy[i])
		}
		for i := range q.OrderBy {
			fld(&q.OrderBy[i].Field)
		}
		return ""
	})
	return ok
}

// vEncoded holds the fields that are encoded; a field that stops being encoded is lost.
var vEncoded = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Fields(`
		SoqlQueryHint.Name SoqlQueryHint.Value SoqlFieldInfo.Type SoqlFieldInfo.Name SoqlFieldInfo.Value
		SoqlFieldInfo.AliasName SoqlFieldInfo.Parameters SoqlFieldInfo.SubQuery SoqlFieldInfo.NotSelected
		SoqlFieldInfo.Aggregated SoqlFieldInfo.Hints SoqlFieldInfo.ColumnId SoqlFieldInfo.ColIndex SoqlFieldInfo.ViewId
		SoqlFieldInfo.Key SoqlListItem.Type SoqlListItem.Value SoqlDateTimeLiteralName.Name SoqlDateTimeLiteralName.N
		SoqlTimeRange.Start SoqlTimeRange.End SoqlObjectInfo.Name SoqlObjectInfo.AliasName SoqlObjectInfo.HasConditions
		SoqlObjectInfo.InnerJoin SoqlObjectInfo.Hints SoqlObjectInfo.PerObjectQuery SoqlObjectInfo.ViewId
		SoqlObjectInfo.ParentViewId SoqlObjectInfo.Key SoqlCondition.Opcode SoqlCondition.Value SoqlOrderByInfo.Field
		SoqlOrderByInfo.Desc SoqlOrderByInfo.NullsLast SoqlOffsetAndLimitClause.Offset SoqlOffsetAndLimitClause.Limit
		SoqlOffsetAndLimitClause.OffsetParamName SoqlOffsetAndLimitClause.LimitParamName SoqlForClause.View
		SoqlForClause.Reference SoqlForClause.Update SoqlForClause.UpdateTracking SoqlForClause.UpdateViewstat
		SoqlViewGraphLeaf.Name SoqlViewGraphLeaf.ParentViewId SoqlViewGraphLeaf.QueryId SoqlViewGraphLeaf.Depth
		SoqlViewGraphLeaf.QueryDepth SoqlViewGraphLeaf.Many SoqlViewGraphLeaf.InnerJoin SoqlViewGraphLeaf.NonResult
		SoqlQueryGraphLeaf.ParentQueryId SoqlQueryGraphLeaf.Depth SoqlQueryGraphLeaf.IsConditional
		SoqlQueryMeta.Version SoqlQueryMeta.Date SoqlQueryMeta.ElapsedTime SoqlQueryMeta.Source
		SoqlQueryMeta.MaxQueryDepth SoqlQueryMeta.MaxViewDepth SoqlQueryMeta.NextQueryId SoqlQueryMeta.NextViewId
		SoqlQueryMeta.NextColumnId SoqlQueryMeta.QueryGraph SoqlQueryMeta.ViewGraph SoqlQueryMeta.Functions
		SoqlQueryMeta.Parameters SoqlQueryMeta.DateTimeLiterals SoqlQuery.Fields SoqlQuery.From SoqlQuery.Where
		SoqlQuery.GroupBy SoqlQuery.Having SoqlQuery.OrderBy SoqlQuery.OffsetAndLimit SoqlQuery.For
		SoqlQuery.IsAggregation SoqlQuery.IsCorelated SoqlQuery.PostProcessWhere SoqlQuery.QueryId SoqlQuery.Meta
	`) {
		m[s] = true
	}
	return m
}()

// jsonEqual compares two values in every exported, encoded field. Nil and empty containers are equal.
func jsonEqual(a, b reflect.Value, path string, seen map[[2]uintptr]bool) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one side is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v and %v", path, a.Type(), b.Type())
	}
	if a.Type() == reflect.TypeOf(time.Time{}) {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("%s: %v and %v", path, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": one side is nil"
		}
		if a.IsNil() {
			return ""
		}
		return jsonEqual(a.Elem(), b.Elem(), path, seen)
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": one side is nil"
		}
		return jsonEqual(a.Elem(), b.Elem(), path, seen)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d and %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if e := jsonEqual(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), seen); e != "" {
				return e
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: size %d and %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if e := jsonEqual(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), seen); e != "" {
				return e
			}
		}
		return ""
	case reflect.Struct:
		if c, ok := a.Interface().(types.SoqlCondition); ok && c.Opcode != types.SoqlConditionOpcode_FieldInfo {
			if d := b.Interface().(types.SoqlCondition); d.Opcode != c.Opcode {
				return fmt.Sprintf("%s: opcode %v and %v", path, c.Opcode, d.Opcode)
			}
			return "" // operators carry no value
		}
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" && !vEncoded[a.Type().Name()+"."+f.Name] {
				continue
			}
			if e := jsonEqual(a.Field(i), b.Field(i), path+"."+f.Name, seen); e != "" {
				return e
			}
		}
		return ""
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v and %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
}

func oC11(q *types.SoqlQuery) string {
	if !jsonable(q) {
		return ""
	}
	j, err := json.Marshal(q)
	if err != nil {
		return "encoding failed: " + err.Error()
	}
	var d types.SoqlQuery
	if err := json.Unmarshal(j, &d); err != nil {
		return "decoding failed: " + err.Error()
	}
	if e := jsonEqual(reflect.ValueOf(q).Elem(), reflect.ValueOf(&d).Elem(), "query", nil); e != "" {
		return "decoded query differs at " + e
	}
	j2, err := json.Marshal(&d)
	if err != nil {
		return "encoding the decoded query failed: " + err.Error()
	}
	if string(j) != string(j2) {
		return "encoding the decoded query gives another text"
	}
	return ""
}

func vInventory(q *types.SoqlQuery) (fn, par, dt map[string]bool) {
	fn, par, dt = map[string]bool{}, map[string]bool{}, map[string]bool{}
	var rec func(x *types.SoqlFieldInfo)
	rec = func(x *types.SoqlFieldInfo) {
		switch x.Type {
		case types.SoqlFieldInfo_Function:
			fn[strings.ToLower(x.Name[0])] = true
			for i := range x.Parameters {
				rec(&x.Parameters[i])
			}
		case types.SoqlFieldInfo_FieldSet:
			fn["fields"] = true
		case types.SoqlFieldInfo_ParameterizedValue:
			par[strings.ToLower(x.Name[0])] = true
		case types.SoqlFieldInfo_DateTimeLiteralName:
			dt[strings.ToLower(x.Name[0])] = true
		case types.SoqlFieldInfo_Literal_List:
			if l, ok := x.Value.([]types.SoqlListItem); ok {
				for i := range l {
					switch v := l[i].Value.(type) {
					case string:
						if l[i].Type == types.SoqlFieldInfo_ParameterizedValue {
							par[strings.ToLower(v)] = true
						}
					case types.SoqlDateTimeLiteralName:
						dt[strings.ToLower(v.Name)] = true
					}
				}
			}
		}
	}
	vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		for i := range q.Fields {
			rec(&q.Fields[i])
		}
		for _, cs := range [][]types.SoqlCondition{q.Where, q.Having} {
			for i := range cs {
				if cs[i].Opcode == types.SoqlConditionOpcode_FieldInfo {
					rec(&cs[i].Value)
				}
			}
		}
		for i := range q.GroupBy {
			rec(&q.GroupBy[i])
		}
		for i := range q.OrderBy {
			rec(&q.OrderBy[i].Field)
		}
		for _, p := range []string{q.OffsetAndLimit.LimitParamName, q.OffsetAndLimit.OffsetParamName} {
			if p != "" {
				par[strings.ToLower(p)] = true
			}
		}
		return ""
	})
	return
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sameSet(name string, got map[string]struct{}, want map[string]bool) string {
	g := map[string]bool{}
	for k := range got {
		g[k] = true
	}
	if !reflect.DeepEqual(keys(g), keys(want)) {
		return fmt.Sprintf("%s listed %v, used %v", name, keys(g), keys(want))
	}
	return ""
}

func oC14(q *types.SoqlQuery) string {
	f, p, d := vInventory(q)
	if e := sameSet("functions", q.Meta.Functions, f); e != "" {
		return e
	}
	if e := sameSet("parameters", q.Meta.Parameters, p); e != "" {
		return e
	}
	return sameSet("date literals", q.Meta.DateTimeLiterals, d)
}

func oC15(q *types.SoqlQuery) string {
	return vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		seen := map[string]bool{}
		seenCol := map[int]bool{}
		for i := range q.Fields {
			x := &q.Fields[i]
			if x.NotSelected {
				continue
			}
			if x.AliasName != "" {
				k := strings.ToLower(x.AliasName)
				if seen[k] {
					return "alias " + x.AliasName + " is used twice"
				}
				seen[k] = true
			} else if x.Type == types.SoqlFieldInfo_Function {
				return "expression item without a name"
			} else if x.Type == types.SoqlFieldInfo_Field {
				if seenCol[x.ColumnId] {
					return "repeated field " + strings.Join(x.Name, ".") + " without a name of its own"
				}
				seenCol[x.ColumnId] = true
			}
		}
		seen = map[string]bool{}
		for i := range q.From {
			if a := strings.ToLower(q.From[i].AliasName); a != "" {
				if seen[a] {
					return "object alias " + a + " is used twice"
				}
				seen[a] = true
			}
		}
		return ""
	})
}

func oC17(q *types.SoqlQuery) string {
	return vWalk(q, func(q, _ *types.SoqlQuery, _, _ int) string {
		agg := len(q.GroupBy) > 0
		var scan func(x *types.SoqlFieldInfo)
		scan = func(x *types.SoqlFieldInfo) {
			if x.Type == types.SoqlFieldInfo_Function {
				switch strings.ToLower(x.Name[0]) {
				case "count", "count_distinct":
					agg = true
				}
				for i := range x.Parameters {
					scan(&x.Parameters[i])
				}
			}
		}
		for i := range q.Fields {
			if !q.Fields[i].NotSelected {
				scan(&q.Fields[i])
			}
		}
		if agg != q.IsAggregation {
			return fmt.Sprintf("aggregation flag is %v, want %v", q.IsAggregation, agg)
		}
		if len(q.Having) > 0 && len(q.GroupBy) == 0 {
			return "HAVING without GROUP BY accepted"
		}
		if agg {
			g := map[string]bool{}
			for i := range q.GroupBy {
				g[strings.ToLower(dotted(q.GroupBy[i].Name))] = true
			}
			for i := range q.Fields {
				x := &q.Fields[i]
				if x.NotSelected {
					continue
				}
				switch x.Type {
				case types.SoqlFieldInfo_Field:
					if !g[strings.ToLower(dotted(x.Name))] {
						return "selected field " + strings.Join(x.Name, ".") + " is not grouped"
					}
				case types.SoqlFieldInfo_SubQuery, types.SoqlFieldInfo_FieldSet:
					return x.Type.String() + " item in an aggregation"
				}
			}
		}
		seen := map[string]bool{}
		for i := range q.GroupBy {
			k := strings.ToLower(dotted(q.GroupBy[i].Name))
			if q.GroupBy[i].Type == types.SoqlFieldInfo_Field && seen[k] {
				return "duplicate GROUP BY item accepted"
			}
			seen[k] = true
		}
		seen = map[string]bool{}
		for i := range q.OrderBy {
			k := strings.ToLower(dotted(q.OrderBy[i].Field.Name))
			if q.OrderBy[i].Field.Type == types.SoqlFieldInfo_Field && seen[k] {
				return "duplicate ORDER BY item accepted"
			}
			seen[k] = true
		}
		for i := range q.Where {
			c := &q.Where[i]
			if c.Opcode == types.SoqlConditionOpcode_FieldInfo && c.Value.Type == types.SoqlFieldInfo_Function {
				var bad bool
				var s2 func(x *types.SoqlFieldInfo)
				s2 = func(x *types.SoqlFieldInfo) {
					if x.Type != types.SoqlFieldInfo_Function {
						return
					}
					switch strings.ToLower(x.Name[0]) {
					case "count", "count_distinct":
						bad = true
					}
					for i := range x.Parameters {
						s2(&x.Parameters[i])
					}
				}
				s2(&c.Value)
				if bad {
					return "aggregate function in WHERE accepted"
				}
			}
		}
		return ""
	})
}
