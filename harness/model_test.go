package parser_test

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

var vOps = map[string]types.SoqlConditionOpcode{
	"=": types.SoqlConditionOpcode_Eq, "!=": types.SoqlConditionOpcode_NotEq, "<": types.SoqlConditionOpcode_Lt, "<=": types.SoqlConditionOpcode_Le,
	">": types.SoqlConditionOpcode_Gt, ">=": types.SoqlConditionOpcode_Ge, "like": types.SoqlConditionOpcode_Like, "not like": types.SoqlConditionOpcode_NotLike,
	"in": types.SoqlConditionOpcode_In, "not in": types.SoqlConditionOpcode_NotIn, "includes": types.SoqlConditionOpcode_Includes, "excludes": types.SoqlConditionOpcode_Excludes,
}

func complOf(o types.SoqlConditionOpcode) types.SoqlConditionOpcode {
	if p, ok := vCompl[o]; ok {
		return p
	}
	for n, p := range vCompl {
		if p == o {
			return n
		}
	}
	return o
}

func (c *vCond) leaves(f func(*vCond)) {
	if c == nil {
		return
	}
	switch c.op {
	case "and", "or":
		c.l.leaves(f)
		c.r.leaves(f)
	case "not":
		c.l.leaves(f)
	default:
		f(c)
	}
}

func (c *vCond) eval(v uint64, ids map[*vCond]int) bool {
	switch c.op {
	case "and":
		return c.l.eval(v, ids) && c.r.eval(v, ids)
	case "or":
		return c.l.eval(v, ids) || c.r.eval(v, ids)
	case "not":
		return !c.l.eval(v, ids)
	}
	return v>>uint(ids[c])&1 == 1
}

// pairs walks the model and the result together. f gets the model query and the parsed query.
func vPairs(m *vQuery, q *types.SoqlQuery, f func(m *vQuery, q *types.SoqlQuery) string) string {
	if e := f(m, q); e != "" {
		return e
	}
	var ms []*vQuery
	for _, it := range m.items {
		if it.o.kind == types.SoqlFieldInfo_SubQuery {
			ms = append(ms, it.o.sub)
		}
	}
	for _, c := range []*vCond{m.where, m.having} {
		c.leaves(func(l *vCond) {
			if l.b.kind == types.SoqlFieldInfo_SubQuery {
				ms = append(ms, l.b.sub)
			}
		})
	}
	sel, cond := vSubs(q)
	qs := append(append([]*types.SoqlQuery{}, sel...), cond...)
	if len(qs) != len(ms) {
		return fmt.Sprintf("%d subqueries recorded, %d written", len(qs), len(ms))
	}
	for i := range ms {
		if qs[i] == nil {
			return "nil subquery"
		}
		if e := vPairs(ms[i], qs[i], f); e != "" {
			return e
		}
	}
	return ""
}

func mCondLogic(name string, c *vCond, cs []types.SoqlCondition) string {
	t, e := vTree(cs)
	if e != "" {
		return name + " " + show(cs) + ": " + e
	}
	if c == nil {
		if t != nil {
			return name + " recorded but not written"
		}
		return ""
	}
	if t == nil {
		return name + " written but not recorded"
	}
	ids := map[*vCond]int{}
	var ml []*vCond
	c.leaves(func(l *vCond) { ids[l] = len(ml); ml = append(ml, l) })
	ql := map[*vNode]int{}
	var qn []*vNode
	t.leaves(func(n *vNode) { ql[n] = len(qn); qn = append(qn, n) })
	if len(ml) != len(qn) {
		return fmt.Sprintf("%s %s has %d comparisons, %d were written", name, show(cs), len(qn), len(ml))
	}
	neg := make([]bool, len(qn))
	for i := range qn {
		w := vOps[ml[i].cmp]
		switch qn[i].op {
		case w:
		case complOf(w):
			neg[i] = true
		default:
			return fmt.Sprintf("%s comparison %d has operator %v, %s was written", name, i, qn[i].op, ml[i].cmp)
		}
		if !sameOperandShape(ml[i].a, qn[i].a) || !sameOperandShape(ml[i].b, qn[i].b) {
			return fmt.Sprintf("%s comparison %d does not have the operands written there: %s", name, i, show(cs))
		}
	}
	var ev func(n *vNode, v uint64) bool
	ev = func(n *vNode, v uint64) bool {
		switch n.op {
		case types.SoqlConditionOpcode_And:
			return ev(n.l, v) && ev(n.r, v)
		case types.SoqlConditionOpcode_Or:
			return ev(n.l, v) || ev(n.r, v)
		}
		i := ql[n]
		return (v>>uint(i)&1 == 1) != neg[i]
	}
	bad := ""
	vAssignments(len(ml), func(v uint64) bool {
		if c.eval(v, ids) != ev(t, v) {
			bad = fmt.Sprintf("%s is recorded as %s, which differs from the text under assignment %b", name, show(cs), v)
			return false
		}
		return true
	})
	return bad
}

func sameOperandShape(o *vOperand, f *types.SoqlFieldInfo) bool { return o.kind == f.Type }

func mC02(m *vQuery, q *types.SoqlQuery) string {
	return vPairs(m, q, func(m *vQuery, q *types.SoqlQuery) string {
		if e := mCondLogic("WHERE", m.where, q.Where); e != "" {
			return e
		}
		return mCondLogic("HAVING", m.having, q.Having)
	})
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y) && y.Location() == time.UTC
	case []types.SoqlListItem:
		y, ok := b.([]types.SoqlListItem)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Type != y[i].Type || !sameValue(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// mOperand compares an operand in kind, value and (unless names is false) resolved name.
func mOperand(o *vOperand, f *types.SoqlFieldInfo, names bool) string {
	if o.kind != f.Type {
		return fmt.Sprintf("kind %v, written %v", f.Type, o.kind)
	}
	switch o.kind {
	case types.SoqlFieldInfo_Field, types.SoqlFieldInfo_FieldSet:
		if !strings.EqualFold(f.Name[len(f.Name)-1], o.name.parts[len(o.name.parts)-1]) {
			return fmt.Sprintf("name %v, written %v", f.Name, o.name.parts)
		}
		if names && !eqNames(f.Name, o.name.fqn) {
			return fmt.Sprintf("path %v, want %v (written %v)", f.Name, o.name.fqn, o.name.parts)
		}
		if names && f.Name[len(f.Name)-1] != o.name.parts[len(o.name.parts)-1] {
			return fmt.Sprintf("field name %v is not spelled as written %v", f.Name, o.name.parts)
		}
	case types.SoqlFieldInfo_Function:
		if len(f.Name) != 1 || f.Name[0] != o.fn {
			return fmt.Sprintf("function %v, written %v", f.Name, o.fn)
		}
		if len(f.Parameters) != len(o.args) {
			return fmt.Sprintf("function %v has %d arguments, written %d", f.Name, len(f.Parameters), len(o.args))
		}
		for i := range o.args {
			if e := mOperand(o.args[i], &f.Parameters[i], names); e != "" {
				return fmt.Sprintf("argument %d of %v: %s", i, f.Name, e)
			}
		}
	case types.SoqlFieldInfo_ParameterizedValue:
		if len(f.Name) != 1 || f.Name[0] != o.param {
			return fmt.Sprintf("parameter %v, written %v", f.Name, o.param)
		}
	case types.SoqlFieldInfo_DateTimeLiteralName:
		v, ok := f.Value.(types.SoqlDateTimeLiteralName)
		if !ok || v.Name != o.dtName || v.N != o.dtN || len(f.Name) != 1 || f.Name[0] != o.dtName {
			return fmt.Sprintf("date literal %v %v, written %v:%d", f.Name, f.Value, o.dtName, o.dtN)
		}
	case types.SoqlFieldInfo_SubQuery:
		if f.SubQuery == nil {
			return "nil subquery"
		}
	default:
		if !sameValue(o.value, f.Value) {
			return fmt.Sprintf("value %#v, written %#v", f.Value, o.value)
		}
	}
	return ""
}

func mC03(m *vQuery, q *types.SoqlQuery) string {
	return vPairs(m, q, func(m *vQuery, q *types.SoqlQuery) string {
		for k, c := range []*vCond{m.where, m.having} {
			name, cs := "WHERE", q.Where
			if k == 1 {
				name, cs = "HAVING", q.Having
			}
			// Comparisons are read off the list without assuming anything about the logical structure.
			var ml []*vCond
			c.leaves(func(l *vCond) { ml = append(ml, l) })
			// expected polarity by NOT nesting
			pol := map[*vCond]bool{}
			var pr func(c *vCond, n bool)
			pr = func(c *vCond, n bool) {
				switch c.op {
				case "and", "or":
					pr(c.l, n)
					pr(c.r, n)
				case "not":
					pr(c.l, !n)
				default:
					pol[c] = n
				}
			}
			if c != nil {
				pr(c, false)
			}
			k := 0
			for i := range cs {
				if !isCmp(cs[i].Opcode) {
					continue
				}
				if i < 2 || k >= len(ml) {
					return fmt.Sprintf("%s %s: too many comparisons", name, show(cs))
				}
				l := ml[k]
				k++
				w := vOps[l.cmp]
				if pol[l] {
					w = complOf(w)
				}
				if cs[i].Opcode != w {
					return fmt.Sprintf("%s comparison %d: operator %v, written %s (negated: %v)", name, k, cs[i].Opcode, l.cmp, pol[l])
				}
				if e := mOperand(l.a, &cs[i-2].Value, false); e != "" {
					return fmt.Sprintf("%s comparison %d, left operand: %s", name, k, e)
				}
				if e := mOperand(l.b, &cs[i-1].Value, false); e != "" {
					return fmt.Sprintf("%s comparison %d, right operand: %s", name, k, e)
				}
			}
			if k != len(ml) {
				return fmt.Sprintf("%s %s: %d comparisons recorded, %d written", name, show(cs), k, len(ml))
			}
		}
		for i, it := range m.items {
			if i < len(q.Fields) && it.o.kind == types.SoqlFieldInfo_Function {
				if e := mOperand(it.o, &q.Fields[i], false); e != "" {
					return fmt.Sprintf("select item %d: %s", i, e)
				}
			}
		}
		return ""
	})
}

func mC10(m *vQuery, q *types.SoqlQuery) string {
	return vPairs(m, q, func(m *vQuery, q *types.SoqlQuery) string {
		if len(q.Fields) < len(m.items) {
			return "select items are missing"
		}
		for i, it := range m.items {
			if it.o.kind != types.SoqlFieldInfo_SubQuery {
				if e := mOperand(it.o, &q.Fields[i], true); e != "" {
					return fmt.Sprintf("select item %d: %s", i, e)
				}
			}
		}
		for k, c := range []*vCond{m.where, m.having} {
			name, cs := "WHERE", q.Where
			if k == 1 {
				name, cs = "HAVING", q.Having
			}
			var ops []*vOperand
			c.leaves(func(l *vCond) { ops = append(ops, l.a, l.b) })
			j := 0
			for i := range cs {
				if cs[i].Opcode == types.SoqlConditionOpcode_FieldInfo {
					if j >= len(ops) {
						return name + ": too many operands"
					}
					if e := mOperand(ops[j], &cs[i].Value, true); e != "" {
						return fmt.Sprintf("%s operand %d: %s", name, j, e)
					}
					j++
				}
			}
			if j != len(ops) {
				return name + ": operands are missing"
			}
		}
		if len(q.GroupBy) != len(m.group) || len(q.OrderBy) != len(m.order) {
			return "GROUP BY or ORDER BY items are missing"
		}
		for i := range m.group {
			if !eqNames(q.GroupBy[i].Name, m.group[i].fqn) {
				return fmt.Sprintf("GROUP BY item path %v, want %v", q.GroupBy[i].Name, m.group[i].fqn)
			}
		}
		for i := range m.order {
			if !eqNames(q.OrderBy[i].Field.Name, m.order[i].name.fqn) {
				return fmt.Sprintf("ORDER BY item path %v, want %v", q.OrderBy[i].Field.Name, m.order[i].name.fqn)
			}
		}
		got := map[string]int{}
		for i := range q.From {
			got[strings.ToLower(dotted(q.From[i].Name))]++
		}
		for k := range m.objs {
			if got[k] != 1 {
				return fmt.Sprintf("object path %q is %d times in FROM, want once", strings.ReplaceAll(k, "\x00", "."), got[k])
			}
		}
		for k := range got {
			if !m.objs[k] {
				return fmt.Sprintf("object path %q in FROM is not referenced", strings.ReplaceAll(k, "\x00", "."))
			}
		}
		for i, o := range m.from {
			ok := false
			for j := range q.From {
				if eqNames(q.From[j].Name, o.fqn) && q.From[j].AliasName == o.alias {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("FROM item %d (%v %s) is not recorded with its alias", i, o.fqn, o.alias)
			}
		}
		return ""
	})
}

func mC12(m *vQuery, q *types.SoqlQuery) string {
	return vPairs(m, q, func(m *vQuery, q *types.SoqlQuery) string {
		if len(q.Fields) < len(m.items) {
			return fmt.Sprintf("%d fields for %d select items", len(q.Fields), len(m.items))
		}
		for i := range q.Fields {
			x := &q.Fields[i]
			if (i >= len(m.items)) != x.NotSelected {
				return fmt.Sprintf("field %d of %d written: not-selected is %v", i, len(m.items), x.NotSelected)
			}
			if i >= len(m.items) {
				continue
			}
			it := m.items[i]
			if it.o.kind != x.Type {
				return fmt.Sprintf("select item %d is a %v, written %v", i, x.Type, it.o.kind)
			}
			if it.alias != "" && x.AliasName != it.alias {
				return fmt.Sprintf("select item %d has alias %q, written %q", i, x.AliasName, it.alias)
			}
			switch x.Type {
			case types.SoqlFieldInfo_Field, types.SoqlFieldInfo_Function, types.SoqlFieldInfo_FieldSet:
				if e := mOperand(it.o, x, false); e != "" {
					return fmt.Sprintf("select item %d: %s", i, e)
				}
			}
		}
		if (len(m.group) == 0) != (len(q.GroupBy) == 0) || len(m.group) != len(q.GroupBy) {
			return "GROUP BY items differ"
		}
		for i := range m.group {
			n := q.GroupBy[i].Name
			if !eqNames(n, m.group[i].fqn) {
				return fmt.Sprintf("GROUP BY item %d is %v, written %v", i, n, m.group[i].parts)
			}
		}
		if len(m.order) != len(q.OrderBy) {
			return "ORDER BY items differ"
		}
		for i, o := range m.order {
			x := &q.OrderBy[i]
			if !eqNames(x.Field.Name, o.name.fqn) {
				return fmt.Sprintf("ORDER BY item %d is %v, written %v", i, x.Field.Name, o.name.parts)
			}
			if x.Desc != (o.dir == "desc") || x.NullsLast != (o.nulls == "nulls last") {
				return fmt.Sprintf("ORDER BY item %d: desc %v nulls-last %v, written %q %q", i, x.Desc, x.NullsLast, o.dir, o.nulls)
			}
		}
		w := types.SoqlOffsetAndLimitClause{Offset: m.offset.n, OffsetParamName: m.offset.param, Limit: m.limit.n, LimitParamName: m.limit.param}
		if q.OffsetAndLimit != w {
			return fmt.Sprintf("offset/limit %+v, written %+v", q.OffsetAndLimit, w)
		}
		var f types.SoqlForClause
		for _, k := range m.forKw {
			switch k {
			case "view":
				f.View = true
			case "reference":
				f.Reference = true
			case "update":
				f.Update = true
			case "tracking":
				f.UpdateTracking = true
			case "viewstat":
				f.UpdateViewstat = true
			}
		}
		if q.For != f {
			return fmt.Sprintf("for clause %+v, written %v", q.For, m.forKw)
		}
		for i := range q.From {
			p := q.From[i].PerObjectQuery
			if p == nil {
				return "object without its own query"
			}
			if i == 0 && p.OffsetAndLimit != w {
				return fmt.Sprintf("head object's query has offset/limit %+v, written %+v", p.OffsetAndLimit, w)
			}
			if i != 0 && p.OffsetAndLimit != (types.SoqlOffsetAndLimitClause{}) {
				return fmt.Sprintf("joined object's query has offset/limit %+v", p.OffsetAndLimit)
			}
			var want []types.SoqlOrderByInfo
			for _, x := range q.OrderBy {
				if x.Field.Type == types.SoqlFieldInfo_Field && eqNames(owner(&x.Field), q.From[i].Name) {
					want = append(want, x)
				}
			}
			if len(want) != len(p.OrderBy) {
				return fmt.Sprintf("query of object %v has %d ORDER BY items, want %d", q.From[i].Name, len(p.OrderBy), len(want))
			}
			for j := range want {
				if !eqNames(want[j].Field.Name, p.OrderBy[j].Field.Name) || want[j].Desc != p.OrderBy[j].Desc || want[j].NullsLast != p.OrderBy[j].NullsLast {
					return fmt.Sprintf("query of object %v: ORDER BY item %d is wrong", q.From[i].Name, j)
				}
			}
			if p.For != f {
				return fmt.Sprintf("query of object %v: for clause %+v, written %v", q.From[i].Name, p.For, m.forKw)
			}
		}
		return ""
	})
}

func mC14(m *vQuery, q *types.SoqlQuery) string {
	fn, par, dt := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var rec func(o *vOperand)
	var recQ func(m *vQuery)
	rec = func(o *vOperand) {
		switch o.kind {
		case types.SoqlFieldInfo_Function:
			fn[strings.ToLower(o.fn)] = true
		case types.SoqlFieldInfo_FieldSet:
			fn["fields"] = true
		case types.SoqlFieldInfo_ParameterizedValue:
			par[strings.ToLower(o.param)] = true
		case types.SoqlFieldInfo_DateTimeLiteralName:
			dt[strings.ToLower(o.dtName)] = true
		case types.SoqlFieldInfo_SubQuery:
			recQ(o.sub)
		}
		for _, a := range o.args {
			rec(a)
		}
	}
	recQ = func(m *vQuery) {
		for _, it := range m.items {
			rec(it.o)
		}
		for _, c := range []*vCond{m.where, m.having} {
			c.leaves(func(l *vCond) { rec(l.a); rec(l.b) })
		}
		for _, n := range []vNum{m.offset, m.limit} {
			if n.param != "" {
				par[strings.ToLower(n.param)] = true
			}
		}
	}
	recQ(m)
	if e := sameSet("functions", q.Meta.Functions, fn); e != "" {
		return e
	}
	if e := sameSet("parameters", q.Meta.Parameters, par); e != "" {
		return e
	}
	return sameSet("date literals", q.Meta.DateTimeLiterals, dt)
}

func mC15(m *vQuery, q *types.SoqlQuery) string {
	return vPairs(m, q, func(m *vQuery, q *types.SoqlQuery) string {
		for i, it := range m.items {
			if i >= len(q.Fields) {
				return "select item missing"
			}
			if it.alias != "" && q.Fields[i].AliasName != it.alias {
				return fmt.Sprintf("written alias %q became %q", it.alias, q.Fields[i].AliasName)
			}
		}
		return ""
	})
}

// normalised JSON: everything but the times and the source text
func vNorm(q *types.SoqlQuery) string {
	c := *q
	mm := *q.Meta
	mm.Date = time.Time{}
	mm.ElapsedTime = 0
	mm.Source = ""
	c.Meta = &mm
	j, err := json.Marshal(&c)
	if err != nil {
		return "!" + err.Error()
	}
	return string(j)
}
