// Implicit result column names: every expression gets a name of its own, which no written alias uses; the first
// plain field of a column keeps its own name, the further ones get a name of their own; written aliases stay.

ufun strafter(a string, b string) string
ufun unitoa(s string) int

func postprocess.normalizeQueryContext.assignImplicitAliasNames
  props C15
  requires q != nil
  modifies elems(q.Fields).AliasName
  noterm the loop over the names ends because the map of the written aliases is finite
  ensures forall i in 0..len(q.Fields) :: {q.Fields[i].AliasName} old(q.Fields[i].AliasName) != "" ==> q.Fields[i].AliasName == old(q.Fields[i].AliasName)
  ensures forall i in 0..len(q.Fields) :: {q.Fields[i].AliasName} q.Fields[i].Type == SoqlFieldInfo_Function ==> q.Fields[i].AliasName != ""
  ensures forall i in 0..len(q.Fields) :: {q.Fields[i].AliasName} q.Fields[i].Type != SoqlFieldInfo_Function && q.Fields[i].Type != SoqlFieldInfo_Field ==> q.Fields[i].AliasName == old(q.Fields[i].AliasName)
  ensures forall i in 0..len(q.Fields) :: {q.Fields[i].AliasName} old(q.Fields[i].AliasName) == "" && q.Fields[i].AliasName != "" ==> !has(fieldAliasMap, q.Fields[i].AliasName) && strafter("expr", q.Fields[i].AliasName) == itoa(unitoa(strafter("expr", q.Fields[i].AliasName))) && q.Fields[i].AliasName == "expr" + strafter("expr", q.Fields[i].AliasName)
  ensures forall i in 0..len(q.Fields), j in 0..len(q.Fields) :: {q.Fields[i].AliasName, q.Fields[j].AliasName} i < j && old(q.Fields[i].AliasName) == "" && q.Fields[i].AliasName != "" && old(q.Fields[j].AliasName) == "" && q.Fields[j].AliasName != "" ==> q.Fields[i].AliasName != q.Fields[j].AliasName
  ensures forall i in 0..len(q.Fields), j in 0..len(q.Fields) :: {q.Fields[i].ColumnId, q.Fields[j].ColumnId} i < j && q.Fields[i].Type == SoqlFieldInfo_Field && q.Fields[j].Type == SoqlFieldInfo_Field && q.Fields[i].ColumnId == q.Fields[j].ColumnId && old(q.Fields[i].AliasName) == "" && old(q.Fields[j].AliasName) == "" ==> q.Fields[j].AliasName != ""
  ensures forall j in 0..len(q.Fields) :: {q.Fields[j].AliasName} q.Fields[j].Type == SoqlFieldInfo_Field && q.Fields[j].AliasName != old(q.Fields[j].AliasName) ==> (exists i in 0..j :: q.Fields[i].Type == SoqlFieldInfo_Field && q.Fields[i].ColumnId == q.Fields[j].ColumnId && old(q.Fields[i].AliasName) == "")
  loop 1
    invariant exprCount >= 0
    invariant forall k in i..len(q.Fields) :: {q.Fields[k].AliasName} q.Fields[k].AliasName == old(q.Fields[k].AliasName)
    invariant forall k in 0..i :: {q.Fields[k].AliasName} old(q.Fields[k].AliasName) != "" ==> q.Fields[k].AliasName == old(q.Fields[k].AliasName)
    invariant forall k in 0..i :: {q.Fields[k].AliasName} q.Fields[k].Type == SoqlFieldInfo_Function ==> q.Fields[k].AliasName != ""
    invariant forall k in 0..i :: {q.Fields[k].AliasName} q.Fields[k].Type != SoqlFieldInfo_Function && q.Fields[k].Type != SoqlFieldInfo_Field ==> q.Fields[k].AliasName == old(q.Fields[k].AliasName)
    invariant forall k in 0..i :: {q.Fields[k].AliasName} old(q.Fields[k].AliasName) == "" && q.Fields[k].AliasName != "" ==> !has(fieldAliasMap, q.Fields[k].AliasName) && q.Fields[k].AliasName == "expr" + itoa(unitoa(strafter("expr", q.Fields[k].AliasName))) && unitoa(strafter("expr", q.Fields[k].AliasName)) < exprCount
    invariant forall k in 0..i, m in 0..i :: {q.Fields[k].AliasName, q.Fields[m].AliasName} k < m && old(q.Fields[k].AliasName) == "" && q.Fields[k].AliasName != "" && old(q.Fields[m].AliasName) == "" && q.Fields[m].AliasName != "" ==> q.Fields[k].AliasName != q.Fields[m].AliasName
    invariant forall k in 0..i :: {q.Fields[k].ColumnId} q.Fields[k].Type == SoqlFieldInfo_Field && old(q.Fields[k].AliasName) == "" ==> has(noAliasNameColumnIds, q.Fields[k].ColumnId)
    invariant forall k in 0..i, m in 0..i :: {q.Fields[k].ColumnId, q.Fields[m].ColumnId} k < m && q.Fields[k].Type == SoqlFieldInfo_Field && q.Fields[m].Type == SoqlFieldInfo_Field && q.Fields[k].ColumnId == q.Fields[m].ColumnId && old(q.Fields[k].AliasName) == "" && old(q.Fields[m].AliasName) == "" ==> q.Fields[m].AliasName != ""
    invariant forall c: int :: {has(noAliasNameColumnIds, c)} has(noAliasNameColumnIds, c) ==> (exists k in 0..i :: q.Fields[k].Type == SoqlFieldInfo_Field && q.Fields[k].ColumnId == c && old(q.Fields[k].AliasName) == "")
    invariant forall j in 0..i :: {q.Fields[j].AliasName} q.Fields[j].Type == SoqlFieldInfo_Field && q.Fields[j].AliasName != old(q.Fields[j].AliasName) ==> (exists k in 0..j :: q.Fields[k].Type == SoqlFieldInfo_Field && q.Fields[k].ColumnId == q.Fields[j].ColumnId && old(q.Fields[k].AliasName) == "")
  loop 2
    invariant exprCount >= pre(exprCount)
