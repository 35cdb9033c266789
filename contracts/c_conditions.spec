// compactConditions drops the Noop entries and keeps the order of the others
func postprocess.compactConditions
  props C02 C04 C05
  modifies elems(conditions)
  ghost sortperm IntArray, sortinv IntArray
  hint Rcompact(old(conditions), result, sortperm, sortinv, old(len(conditions)), len(result))
  ensures isCompact(old(conditions), result, sortperm, sortinv)
  ensures forall i in 0..len(result) :: result[i] == old(conditions[sortperm[i]])
  ensures R(result, sortperm, 0, len(result)) == R(old(conditions), idarr, 0, old(len(conditions)))
  ensures len(result) > 0 ==> arr(result) == arr(old(conditions)) && off(result) == off(old(conditions))
  ensures len(result) <= old(len(conditions))
  loop 1
    decreases len(conditions) - i
    invariant forall k in 0..i :: conditions[k].Opcode != SoqlConditionOpcode_Noop

// a stack operation does not depend on the names and the truth values
lemma shapeStep(o int, i int, j int, s Stk, t Stk)
  requires shape(s) == shape(t)
  hint isPush(s) && isPush(t) ==> shape(rest(s)) == shape(rest(t)) && (isPush(rest(s)) <==> isPush(rest(t)))
  ensures shape(step(o, i, s)) == shape(step(o, j, t))

lemma Rshape(c []SoqlCondition S, d []SoqlCondition T, sc IntArray, sd IntArray, a int, b int)
  requires forall i in a..b :: c[i].Opcode == d[i].Opcode
  ensures shape(R(c, sc, a, b)) == shape(R(d, sd, a, b))
  decreases b - a
  hint b > a ==> shapeStep(c[b-1].Opcode, sc[b-1], sd[b-1], R(c, sc, a, b-1), R(d, sd, a, b-1))
  ih c, d, sc, sd, a, b-1

// a condition of the parser: nothing, or one truth value
fn complete(c []SoqlCondition) bool = (forall i in 0..len(c) :: c[i].Opcode != SoqlConditionOpcode_Noop) && R(c, idarr, 0, len(c)) != Bad &&
  (len(c) > 0 ==> isPush(R(c, idarr, 0, len(c))) && isTruth(top(R(c, idarr, 0, len(c)))) && rest(R(c, idarr, 0, len(c))) == Nil)

// distributeNotOperators removes every `not` by complementing the operators in its operand:
// the condition that is left has the same value for every assignment of truth values to the comparisons.
func postprocess.distributeNotOperators
  props C02 C01
  ghost sortperm IntArray, sortinv IntArray
  requires forall i in 0..len(conditions) :: conditions[i].Opcode != SoqlConditionOpcode_Noop
  requires R(conditions, idarr, 0, len(conditions)) != Bad
  modifies elems(conditions)
  ensures R(result, sortperm, 0, len(result)) == R(old(conditions), idarr, 0, old(len(conditions)))
  ensures forall i in 0..len(result) :: result[i].Opcode != SoqlConditionOpcode_Not && result[i].Opcode != SoqlConditionOpcode_Noop
  ensures len(result) > 0 ==> arr(result) == arr(conditions)
  ensures old(complete(conditions)) ==> complete(result) using run nop shp len0
  hint run: assert(R(result, sortperm, 0, len(result)) == R(old(conditions), idarr, 0, old(len(conditions))))
  hint nop: assert(forall i in 0..len(result) :: result[i].Opcode != SoqlConditionOpcode_Noop)
  hint len0: assert(len(result) > 0 ==> old(len(conditions)) > 0)
  hint shp: Rshape(result, result, sortperm, idarr, 0, len(result))
  ensures forall i in 0..len(result) :: 0 <= sortperm[i] && sortperm[i] < old(len(conditions)) && result[i].Value == old(conditions[sortperm[i]].Value)
  ensures forall i in 0..len(result) :: result[i].Opcode == old(conditions[sortperm[i]].Opcode) || result[i].Opcode == negop(old(conditions[sortperm[i]].Opcode))
  ensures forall i in 0..len(result), j in 0..len(result) :: {sortperm[i], sortperm[j]} i < j ==> sortperm[i] < sortperm[j]
  loop 1
    invariant forall k in 0..len(starts) :: 0 <= starts[k] && starts[k] < i
    invariant forall k in 0..len(starts), m in 0..len(starts) :: {starts[k], starts[m]} k < m ==> starts[k] < starts[m]
    invariant len(starts) > 0 ==> starts[0] == 0
    invariant len(starts) == 0 ==> i == 0
    invariant len(starts) <= i
    invariant forall k in 0..len(starts), m in 0..len(starts) :: {starts[k], starts[m]} m == k+1 ==> R(conditions, idarr, starts[k], starts[m]) == R(old(conditions), idarr, starts[k], starts[m]) && isPush(R(old(conditions), idarr, starts[k], starts[m])) && rest(R(old(conditions), idarr, starts[k], starts[m])) == Nil
    invariant len(starts) > 0 ==> R(conditions, idarr, starts[len(starts)-1], i) == R(old(conditions), idarr, starts[len(starts)-1], i) && isPush(R(old(conditions), idarr, starts[len(starts)-1], i)) && rest(R(old(conditions), idarr, starts[len(starts)-1], i)) == Nil
    invariant forall k in 0..len(starts) :: {starts[k]} R(conditions, idarr, 0, starts[k]) == R(old(conditions), idarr, 0, starts[k])
    invariant R(conditions, idarr, 0, i) == R(old(conditions), idarr, 0, i)
    invariant forall j in i..len(conditions) :: conditions[j].Opcode == old(conditions[j].Opcode)
    invariant forall j in 0..i :: conditions[j].Opcode != SoqlConditionOpcode_Not
    invariant forall j in 0..i :: conditions[j].Opcode == SoqlConditionOpcode_Noop || conditions[j].Opcode == old(conditions[j].Opcode) || conditions[j].Opcode == negop(old(conditions[j].Opcode))
    invariant forall j in 0..len(conditions) :: conditions[j].Value == old(conditions[j].Value)
    hint Rbad(old(conditions), idarr, 0, i, len(conditions)) && Rbad(old(conditions), idarr, 0, i+1, len(conditions))
    hint head(len(starts)) >= 1 ==> Rcompose(old(conditions), idarr, 0, head(starts[len(starts)-1]), head(i))
    hint head(len(starts)) >= 1 ==> Rbad(old(conditions), idarr, 0, head(starts[len(starts)-1]), len(conditions))
    hint head(len(starts)) >= 2 ==> Rcompose(old(conditions), idarr, 0, head(starts[len(starts)-2]), head(i))
    hint forall k in 0..head(len(starts)) :: {starts[k]} Rext(head(conditions), conditions, idarr, idarr, 0, starts[k])
    hint forall k in 0..head(len(starts)), m in 0..head(len(starts)) :: {starts[k], starts[m]} m == k+1 ==> Rext(head(conditions), conditions, idarr, idarr, starts[k], starts[m])
    hint Rext(head(conditions), conditions, idarr, idarr, 0, head(i))
    hint head(len(starts)) >= 1 ==> Rext(head(conditions), conditions, idarr, idarr, head(starts[len(starts)-1]), head(i))
    hint head(len(starts)) >= 1 ==> Rneg(head(conditions), conditions, idarr, head(starts[len(starts)-1]), head(i))
    hint head(len(starts)) >= 1 ==> Rcompose(conditions, idarr, 0, head(starts[len(starts)-1]), i)
    hint head(len(starts)) >= 2 ==> Rcompose(old(conditions), idarr, head(starts[len(starts)-2]), head(starts[len(starts)-1]), head(i))
    hint head(len(starts)) >= 2 ==> Rcompose(conditions, idarr, head(starts[len(starts)-2]), head(starts[len(starts)-1]), head(i))
    hint R(conditions, idarr, head(i), head(i)) == R(old(conditions), idarr, head(i), head(i))
    hint R(conditions, idarr, head(i), i) == R(old(conditions), idarr, head(i), i)
  loop 2
    invariant forall k in starts[len(starts)-1]..j :: conditions[k].Opcode == negop(pre(conditions[k].Opcode))
    invariant forall k in 0..len(conditions) :: k < starts[len(starts)-1] || k >= j ==> conditions[k].Opcode == pre(conditions[k].Opcode)
    invariant forall k in 0..len(conditions) :: conditions[k].Value == pre(conditions[k].Value)
