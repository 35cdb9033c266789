// Fields added to a query because they are referenced: the fields written in the query stay as they are, in
// front; the added ones are plain fields marked as not selected.

func postprocess.normalizeQueryContext.addUnselectedSelectFields
  props C07 C12
  requires q != nil && fieldMap != nil && level >= 0
  requires allocated(fields) && valid(q.Fields)
  modifies q.Fields, content(fieldMap), elemsof(SoqlFieldInfo)
  noterm parameters form a finite tree
  ensures valid(q.Fields) && old(len(q.Fields)) <= len(q.Fields)
  ensures forall j in 0..old(len(q.Fields)) :: {addr(q.Fields[j])} q.Fields[j] == old(q.Fields[j])
  ensures forall j in old(len(q.Fields))..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].NotSelected && q.Fields[j].Type == SoqlFieldInfo_Field
  loop 2
    invariant valid(q.Fields) && old(len(q.Fields)) <= len(q.Fields)
    invariant forall j in 0..old(len(q.Fields)) :: {addr(q.Fields[j])} q.Fields[j] == old(q.Fields[j])
    invariant forall j in old(len(q.Fields))..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].NotSelected && q.Fields[j].Type == SoqlFieldInfo_Field

func postprocess.normalizeQueryContext.addUnselectedConditionalFields
  props C07 C12
  requires q != nil && fieldMap != nil
  requires valid(conditions) && valid(q.Fields)
  modifies q.Fields, content(fieldMap), elemsof(SoqlFieldInfo)
  ensures result == nil
  ensures valid(q.Fields) && old(len(q.Fields)) <= len(q.Fields)
  ensures forall j in 0..old(len(q.Fields)) :: {addr(q.Fields[j])} q.Fields[j] == old(q.Fields[j])
  ensures forall j in old(len(q.Fields))..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].NotSelected && q.Fields[j].Type == SoqlFieldInfo_Field
  loop 1
    invariant valid(q.Fields) && old(len(q.Fields)) <= len(q.Fields)
    invariant forall j in 0..old(len(q.Fields)) :: {addr(q.Fields[j])} q.Fields[j] == old(q.Fields[j])
    invariant forall j in old(len(q.Fields))..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].NotSelected && q.Fields[j].Type == SoqlFieldInfo_Field

func postprocess.normalizeQueryContext.addUnselectedFields
  props C07 C12
  requires q != nil && valid(q.Fields) && valid(q.Where) && valid(q.Having) && valid(q.GroupBy) && valid(q.OrderBy)
  modifies q.Fields, elemsof(SoqlFieldInfo)
  ensures result == nil
  ensures valid(q.Fields) && old(len(q.Fields)) <= len(q.Fields)
  ensures forall j in 0..old(len(q.Fields)) :: {addr(q.Fields[j])} q.Fields[j] == old(q.Fields[j])
  ensures forall j in old(len(q.Fields))..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].NotSelected
  loop 1
    decreases len(q.OrderBy) - i
    invariant valid(q.Fields) && old(len(q.Fields)) <= len(q.Fields)
    invariant forall j in 0..old(len(q.Fields)) :: {addr(q.Fields[j])} q.Fields[j] == old(q.Fields[j])
    invariant forall j in old(len(q.Fields))..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].NotSelected

// the paths names stand for
fn nmOk(m map[string][]string) bool = m != nil && (forall k: string :: {m[k]} has(m, k) ==> valid(m[k]) && len(m[k]) >= 1)

func postprocess.normalizeQueryContext.normalizeObjectName
  props C10
  requires ctx != nil && object != nil && q != nil && valid(q.From) && nmOk(objNameMap)
  requires valid(object.Name) && len(object.Name) >= 1
  modifies object.Name, object.Key, q.From, heap(SoqlObjectInfo), content(objNameMap)
  noterm the paths that names stand for are prefix-closed
  stable nameutil.MakeDottedKeyIgnoreCase forall s: []string, n: int :: {dk(s, n)} dkext(s, old(s), n)
  ensures valid(q.From) && len(q.From) >= old(len(q.From)) && nmOk(objNameMap)
  ensures forall k: string :: {has(objNameMap, k)}{old(has(objNameMap, k))} old(has(objNameMap, k)) ==> has(objNameMap, k)
  ensures result == nil ==> valid(object.Name) && len(object.Name) >= 1 && object.Key == dk(object.Name, len(object.Name)) && has(objNameMap, object.Key)
  loop 1
    invariant valid(q.From) && len(q.From) >= old(len(q.From)) && nmOk(objNameMap) && valid(currentName) && len(currentName) >= 1
    invariant forall k: string :: {has(objNameMap, k)}{old(has(objNameMap, k))} old(has(objNameMap, k)) ==> has(objNameMap, k)

func postprocess.normalizeQueryContext.applyColIndexToFields
  props C07
  partial the head object of a query is registered before its fields are indexed
  requires ctx != nil && q != nil
  modifies content(ctx.colIndexMap), heap(SoqlFieldInfo.ColIndex), elemsof(SoqlFieldInfo), q.IsCorelated, heap(SoqlQuery.Fields)
  noterm parameters form a finite tree

func postprocess.normalizeQueryContext.applyColIndex
  props C07
  partial the head object of a query is registered before its fields are indexed
  requires ctx != nil && q != nil
  modifies content(ctx.colIndexMap), heap(SoqlFieldInfo.ColIndex), elemsof(SoqlFieldInfo), q.IsCorelated, heap(SoqlQuery.Fields)
