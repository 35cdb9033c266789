// Aggregation: a query which calls COUNT or COUNT_DISTINCT in a select item, at any depth, is an aggregation.

fn isCount(f *SoqlFieldInfo) bool = f.Type == SoqlFieldInfo_Function && len(f.Name) == 1 && (lower(f.Name[0]) == "count" || lower(f.Name[0]) == "count_distinct")

// scanned: the field and all its parameters, at any depth, were visited
ghostfield SoqlFieldInfo.scanned bool

fn scanOk(q *SoqlQuery) bool = forall f: *SoqlFieldInfo :: {f.scanned} f.scanned ==> (isCount(f) ==> q.IsAggregation) &&
  (f.Type == SoqlFieldInfo_Function ==> (forall i in 0..len(f.Parameters) :: {addr(f.Parameters[i]).scanned} addr(f.Parameters[i]).scanned))

func postprocess.preScanFunctionFields
  props C17
  requires field != nil && q != nil && scanOk(q)
  modifies q.IsAggregation, heap(SoqlFieldInfo.scanned)
  noterm parameters form a finite tree
  ensures scanOk(q) && field.scanned
  ensures forall f: *SoqlFieldInfo :: {f.scanned}{old(f.scanned)} old(f.scanned) ==> f.scanned
  ensures old(q.IsAggregation) ==> q.IsAggregation
  ensures q.IsAggregation && !old(q.IsAggregation) ==> (exists f: *SoqlFieldInfo :: {f.scanned} f.scanned && isCount(f))
  set field.scanned := true
  loop 1
    invariant scanOk(q) && (isCount(field) ==> q.IsAggregation)
    invariant forall f: *SoqlFieldInfo :: {f.scanned}{old(f.scanned)} old(f.scanned) ==> f.scanned
    invariant forall j in 0..i :: {addr(field.Parameters[j]).scanned} addr(field.Parameters[j]).scanned
    invariant old(q.IsAggregation) ==> q.IsAggregation
    invariant q.IsAggregation && !old(q.IsAggregation) ==> isCount(field) || (exists f: *SoqlFieldInfo :: {f.scanned} f.scanned && isCount(f))
