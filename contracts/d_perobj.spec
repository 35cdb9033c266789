// Lists of one object: the fields and the ordering of an object are exactly the ones whose
// name is the name of the object followed by one part, in the order of the query.

// the field is a direct field of the object
fn inObj(obj []string, name []string) bool = len(obj)+1 == len(name) && (forall i in 0..len(obj) :: fold(obj[i]) == fold(name[i]))

fn isFieldOf(t int, obj []string, name []string) bool = (t == SoqlFieldInfo_Field || t == SoqlFieldInfo_FieldSet) && inObj(obj, name)

// how many of the first n fields belong to the object
fn cntF(src []SoqlFieldInfo, obj []string, n int) int = n <= 0 ? 0 : cntF(src, obj, n-1) + (isFieldOf(src[n-1].Type, obj, src[n-1].Name) ? 1 : 0)
fn cntO(src []SoqlOrderByInfo, obj []string, n int) int = n <= 0 ? 0 : cntO(src, obj, n-1) + (src[n-1].Field.Type == SoqlFieldInfo_Field && inObj(obj, src[n-1].Field.Name) ? 1 : 0)

func postprocess.makePerObjectFields
  props C07 C09
  requires perObjQuery != nil && len(perObjQuery.From) >= 1
  requires forall i in 0..len(srcFields) :: srcFields[i].Type == SoqlFieldInfo_Field || srcFields[i].Type == SoqlFieldInfo_FieldSet ==> len(srcFields[i].Name) >= 1
  modifies nothing
  ensures len(result) == cntF(old(srcFields), old(perObjQuery.From[0].Name), len(srcFields))
  ensures forall i in 0..len(srcFields) :: {old(srcFields[i].Name)} isFieldOf(old(srcFields[i].Type), old(perObjQuery.From[0].Name), old(srcFields[i].Name)) ==> 0 <= cntF(old(srcFields), old(perObjQuery.From[0].Name), i) && cntF(old(srcFields), old(perObjQuery.From[0].Name), i) < len(result) && result[cntF(old(srcFields), old(perObjQuery.From[0].Name), i)] == old(srcFields[i])
  ensures len(result) > 0 ==> isfresh(result)
  loop 1
    invariant len(targetFields) == cntF(old(srcFields), old(perObjQuery.From[0].Name), i)
    invariant forall k in 0..i :: {old(srcFields[k].Name)} isFieldOf(old(srcFields[k].Type), old(perObjQuery.From[0].Name), old(srcFields[k].Name)) ==> 0 <= cntF(old(srcFields), old(perObjQuery.From[0].Name), k) && cntF(old(srcFields), old(perObjQuery.From[0].Name), k) < len(targetFields) && targetFields[cntF(old(srcFields), old(perObjQuery.From[0].Name), k)] == old(srcFields[k])
    hint cntF(old(srcFields), old(perObjQuery.From[0].Name), i-1) == 0

func postprocess.makePerObjectOrders
  props C12
  requires perObjQuery != nil && len(perObjQuery.From) >= 1
  requires forall i in 0..len(srcOrders) :: srcOrders[i].Field.Type == SoqlFieldInfo_Field ==> len(srcOrders[i].Field.Name) >= 1
  modifies nothing
  ensures alc: allocated(result)
  ensures len(result) == cntO(old(srcOrders), old(perObjQuery.From[0].Name), len(srcOrders))
  ensures forall i in 0..len(srcOrders) :: {old(srcOrders[i].Field.Name)} old(srcOrders[i].Field.Type) == SoqlFieldInfo_Field && inObj(old(perObjQuery.From[0].Name), old(srcOrders[i].Field.Name)) ==> 0 <= cntO(old(srcOrders), old(perObjQuery.From[0].Name), i) && cntO(old(srcOrders), old(perObjQuery.From[0].Name), i) < len(result) && result[cntO(old(srcOrders), old(perObjQuery.From[0].Name), i)] == old(srcOrders[i])
  loop 1
    invariant len(targetOrders) == cntO(old(srcOrders), old(perObjQuery.From[0].Name), i)
    invariant forall k in 0..i :: {old(srcOrders[k].Field.Name)} old(srcOrders[k].Field.Type) == SoqlFieldInfo_Field && inObj(old(perObjQuery.From[0].Name), old(srcOrders[k].Field.Name)) ==> 0 <= cntO(old(srcOrders), old(perObjQuery.From[0].Name), k) && cntO(old(srcOrders), old(perObjQuery.From[0].Name), k) < len(targetOrders) && targetOrders[cntO(old(srcOrders), old(perObjQuery.From[0].Name), k)] == old(srcOrders[k])
    hint cntO(old(srcOrders), old(perObjQuery.From[0].Name), i-1) == 0

lemma cntOext(c []SoqlOrderByInfo S, d []SoqlOrderByInfo T, p []string S, q []string T, n int)
  requires forall i in 0..n :: {addr(d[i])} c[i].Field.Type == SoqlFieldInfo_Field && inObj(p, c[i].Field.Name) <==> d[i].Field.Type == SoqlFieldInfo_Field && inObj(q, d[i].Field.Name)
  ensures cntO(c, p, n) == cntO(d, q, n)
  decreases n
  ih c, d, p, q, n-1
