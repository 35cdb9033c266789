// The condition of one object: every operand that does not speak about the object is taken out.
// What is left is implied by the condition of the query, for every assignment of truth values to the
// comparisons: filtering the object by it loses no record.

// a complete condition without not: running it leaves one truth value
fn wfCond(c []SoqlCondition) bool = (forall i in 0..len(c) :: c[i].Opcode != SoqlConditionOpcode_Noop && c[i].Opcode != SoqlConditionOpcode_Not) && R(c, idarr, 0, len(c)) != Bad &&
  (len(c) > 0 ==> isPush(R(c, idarr, 0, len(c))) && isTruth(top(R(c, idarr, 0, len(c)))) && rest(R(c, idarr, 0, len(c))) == Nil)

// the operand speaks about the object, or about no object
fn keeps(t int, obj []string, name []string) bool = t != SoqlFieldInfo_Function && t != SoqlFieldInfo_SubQuery && (t == SoqlFieldInfo_Field ==> inObj(obj, name))

func postprocess.makePerObjectConditions
  props C04 C06
  requires perObjQuery != nil && len(perObjQuery.From) >= 1
  requires forall i in 0..len(srcCondtions) :: srcCondtions[i].Opcode == SoqlConditionOpcode_FieldInfo && srcCondtions[i].Value.Type == SoqlFieldInfo_Field ==> len(srcCondtions[i].Value.Name) >= 1
  requires wf: wfCond(srcCondtions)
  modifies nothing
  ensures len(result1) == len(srcCondtions)
  ensures forall i in 0..len(result1) :: result1[i].Value == old(srcCondtions[i].Value)
  ensures forall i in 0..len(result1) :: result1[i].Opcode == SoqlConditionOpcode_Noop || result1[i].Opcode == old(srcCondtions[i].Opcode)
  ensures forall i in 0..len(result1) :: result1[i].Opcode != SoqlConditionOpcode_Unknown && result1[i].Opcode != SoqlConditionOpcode_Not
  ensures forall i in 0..len(result1) :: {result1[i].Opcode} result1[i].Opcode == SoqlConditionOpcode_FieldInfo ==> keeps(old(srcCondtions[i].Value.Type), old(perObjQuery.From[0].Name), old(srcCondtions[i].Value.Name))
  ensures !result2 ==> (forall i in 0..len(result1) :: result1[i].Opcode == SoqlConditionOpcode_Noop)
  ensures result2 ==> (exists i in 0..len(result1) :: result1[i].Opcode != SoqlConditionOpcode_Noop)
  ensures result0 ==> (exists i in 0..len(srcCondtions) :: old(srcCondtions[i].Opcode) == SoqlConditionOpcode_FieldInfo && old(srcCondtions[i].Value.Type) == SoqlFieldInfo_Field && inObj(old(perObjQuery.From[0].Name), old(srcCondtions[i].Value.Name)))
  ensures !result0 ==> (forall i in 0..len(srcCondtions) :: {old(srcCondtions[i].Opcode)} !(old(srcCondtions[i].Opcode) == SoqlConditionOpcode_FieldInfo && old(srcCondtions[i].Value.Type) == SoqlFieldInfo_Field && inObj(old(perObjQuery.From[0].Name), old(srcCondtions[i].Value.Name))))
  ensures len(result1) > 0 ==> isfresh(result1)
  hint e1: sp >= 1 ==> Rcompose(old(srcCondtions), idarr, 0, stack[sp-1].minPos, len(srcCondtions))
  hint e2: sp >= 2 ==> Rcompose(old(srcCondtions), idarr, 0, stack[sp-2].minPos, stack[sp-1].minPos)
  hint e3: sp >= 1 ==> Rbad(old(srcCondtions), idarr, 0, stack[sp-1].minPos, len(srcCondtions))
  hint e4: sp >= 2 ==> Rbad(old(srcCondtions), idarr, 0, stack[sp-2].minPos, len(srcCondtions))
  hint one: assert(sp <= 1) using e1 e2 e3 e4 spr posA posB posEnds posEmpty posLt posAdj srcSingle wf
  loop 1
    invariant forall j in 0..len(conditions) :: {conditions[j].Opcode} conditions[j].Opcode == old(srcCondtions[j].Opcode)
    invariant forall j in 0..len(conditions) :: {conditions[j].Value} conditions[j].Value == old(srcCondtions[j].Value)
    invariant forall k in 0..i :: {old(srcCondtions[k].Opcode)} !(old(srcCondtions[k].Opcode) == SoqlConditionOpcode_FieldInfo && old(srcCondtions[k].Value.Type) == SoqlFieldInfo_Field && inObj(old(perObjQuery.From[0].Name), old(srcCondtions[k].Value.Name)))
  loop 2
    invariant spr: 0 <= sp && sp <= i
    invariant copy: forall j in i..len(conditions) :: conditions[j].Opcode == old(srcCondtions[j].Opcode)
    invariant vals: forall j in 0..len(conditions) :: conditions[j].Value == old(srcCondtions[j].Value)
    invariant posA: forall k in 0..sp :: {stack[k].minPos} 0 <= stack[k].minPos && stack[k].minPos <= stack[k].srcPos && stack[k].srcPos < i
    invariant posB: forall k in 0..sp :: {stack[k].srcPos} 0 <= stack[k].minPos && stack[k].minPos <= stack[k].srcPos && stack[k].srcPos < i
    invariant posEnds: sp > 0 ==> stack[0].minPos == 0 && stack[sp-1].srcPos == i-1
    invariant posEmpty: sp == 0 ==> i == 0
    invariant posLt: forall k in 0..sp, m in 0..sp :: {stack[k].srcPos, stack[m].minPos} k < m ==> stack[k].srcPos < stack[m].minPos
    invariant posAdj: forall k in 0..sp, m in 0..sp :: {stack[k].srcPos, stack[m].minPos} m == k+1 ==> stack[m].minPos == stack[k].srcPos + 1
    invariant srcSingle: forall k in 0..sp :: {stack[k].minPos} isPush(R(old(srcCondtions), idarr, stack[k].minPos, stack[k].srcPos+1)) && rest(R(old(srcCondtions), idarr, stack[k].minPos, stack[k].srcPos+1)) == Nil
    invariant known: forall k in 0..sp, j in 0..len(conditions) :: {stack[k].minPos, conditions[j].Opcode} stack[k].cond.Opcode != SoqlConditionOpcode_Unknown && stack[k].minPos <= j && j <= stack[k].srcPos ==> conditions[j].Opcode != SoqlConditionOpcode_Unknown
    invariant ops: forall j in 0..i :: {conditions[j].Opcode} conditions[j].Opcode == SoqlConditionOpcode_Noop || conditions[j].Opcode == SoqlConditionOpcode_Unknown || conditions[j].Opcode == old(srcCondtions[j].Opcode)
    invariant mine: forall j in 0..i :: {conditions[j].Opcode} conditions[j].Opcode == SoqlConditionOpcode_FieldInfo ==> keeps(old(srcCondtions[j].Value.Type), old(perObjQuery.From[0].Name), old(srcCondtions[j].Value.Name))
    hint rb0: Rbad(old(srcCondtions), idarr, 0, i, len(srcCondtions)) && Rbad(old(srcCondtions), idarr, 0, i+1, len(srcCondtions))
    hint rb1: head(sp) >= 1 ==> Rbad(old(srcCondtions), idarr, 0, head(stack[sp-1].minPos), len(srcCondtions))
    hint rb2: head(sp) >= 2 ==> Rbad(old(srcCondtions), idarr, 0, head(stack[sp-2].minPos), len(srcCondtions))
    hint rc1: head(sp) >= 1 ==> Rcompose(old(srcCondtions), idarr, 0, head(stack[sp-1].minPos), head(i))
    hint rc2: head(sp) >= 2 ==> Rcompose(old(srcCondtions), idarr, 0, head(stack[sp-2].minPos), head(stack[sp-1].minPos))
    hint rc3: head(sp) >= 2 ==> Rcompose(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos), head(i))
    hint old2: assert(head(sp) >= 2 ==> R(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(i)) == Push(top(R(old(srcCondtions), idarr, head(stack[sp-1].minPos), head(i))), Push(top(R(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos))), Nil))) using rc3 spr posA posB posEnds posAdj srcSingle
    hint kst: assert(forall k in 0..sp-1 :: {stack[k].minPos} stack[k].minPos == head(stack[k].minPos) && stack[k].srcPos == head(stack[k].srcPos))
    hint nop: assert(i > head(i) ==> stack[sp-1].srcPos == head(i) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Not && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Noop)
    hint bin: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(sp) >= 2 && stack[sp-1].minPos == head(stack[sp-2].minPos) && sp == head(sp) - 1)
    hint stp: assert(i > head(i) ==> R(old(srcCondtions), idarr, stack[sp-1].minPos, i) == step(old(srcCondtions[head(i)].Opcode), head(i), R(old(srcCondtions), idarr, stack[sp-1].minPos, head(i))))
    hint stb: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> R(old(srcCondtions), idarr, stack[sp-1].minPos, head(i)) == Push(top(R(old(srcCondtions), idarr, head(stack[sp-1].minPos), head(i))), Push(top(R(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos))), Nil))) using bin old2
    hint sta: assert(i > head(i) && isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> R(old(srcCondtions), idarr, stack[sp-1].minPos, head(i)) == Nil)
    hint nb0: assert(i > head(i) ==> R(old(srcCondtions), idarr, 0, i) == step(old(srcCondtions[head(i)].Opcode), head(i), R(old(srcCondtions), idarr, 0, head(i))) && R(old(srcCondtions), idarr, 0, i) != Bad)
    hint nb1: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> R(old(srcCondtions), idarr, 0, head(i)) == Push(top(R(old(srcCondtions), idarr, head(stack[sp-1].minPos), head(i))), Push(top(R(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos))), R(old(srcCondtions), idarr, 0, head(stack[sp-2].minPos)))))
    hint nb: assert(i > head(i) ==> R(old(srcCondtions), idarr, stack[sp-1].minPos, i) != Bad) using nb0 nb1 sta stb stp nop
    hint one: assert(i > head(i) ==> isPush(R(old(srcCondtions), idarr, stack[sp-1].minPos, i)) && rest(R(old(srcCondtions), idarr, stack[sp-1].minPos, i)) == Nil) using nb sta stb stp nop
  loop 3
    modifies elems(conditions)
    decreases op1.srcPos - j + 1
    invariant op1.minPos <= j
    invariant j <= op1.srcPos + 1 || j == op1.minPos
    invariant forall k in op1.minPos..j :: conditions[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..len(conditions) :: k < op1.minPos || k >= j ==> conditions[k].Opcode == pre(conditions[k].Opcode)
  loop 4
    modifies elems(conditions)
    decreases maxPos - j + 1
    invariant stack[sp].minPos <= j
    invariant j <= maxPos + 1 || j == stack[sp].minPos
    invariant forall k in stack[sp].minPos..j :: conditions[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..len(conditions) :: k < stack[sp].minPos || k >= j ==> conditions[k].Opcode == pre(conditions[k].Opcode)
  loop 5
    modifies elems(conditions)
    decreases op1.srcPos - j + 1
    invariant op1.minPos <= j
    invariant j <= op1.srcPos + 1 || j == op1.minPos
    invariant forall k in op1.minPos..j :: conditions[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..len(conditions) :: k < op1.minPos || k >= j ==> conditions[k].Opcode == pre(conditions[k].Opcode)
  loop 6
    modifies elems(conditions)
    decreases op2.srcPos - j + 1
    invariant op2.minPos <= j
    invariant j <= op2.srcPos + 1 || j == op2.minPos
    invariant forall k in op2.minPos..j :: conditions[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..len(conditions) :: k < op2.minPos || k >= j ==> conditions[k].Opcode == pre(conditions[k].Opcode)
  loop 7
    modifies elems(conditions)
    decreases maxPos - j + 1
    invariant stack[sp].minPos <= j
    invariant j <= maxPos + 1 || j == stack[sp].minPos
    invariant forall k in stack[sp].minPos..j :: conditions[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..len(conditions) :: k < stack[sp].minPos || k >= j ==> conditions[k].Opcode == pre(conditions[k].Opcode)
  loop 8
    modifies elems(conditions)
    invariant forall k in 0..i :: conditions[k].Opcode == SoqlConditionOpcode_Noop
  loop 9
    invariant forall k in 0..i :: conditions[k].Opcode == SoqlConditionOpcode_Noop

aspect postprocess.makePerObjectConditions#value
  props C04 C05
  ensures R(result1, idarr, 0, len(result1)) == Nil || (isPush(R(result1, idarr, 0, len(result1))) && rest(R(result1, idarr, 0, len(result1))) == Nil && isTruth(top(R(result1, idarr, 0, len(result1)))) && (truth(top(R(old(srcCondtions), idarr, 0, len(srcCondtions)))) ==> truth(top(R(result1, idarr, 0, len(result1))))))
  hint sp >= 1 ==> Rcompose(old(srcCondtions), idarr, 0, stack[sp-1].minPos, len(srcCondtions))
  hint sp >= 2 ==> Rcompose(old(srcCondtions), idarr, 0, stack[sp-2].minPos, stack[sp-1].minPos)
  hint sp >= 1 ==> Rbad(old(srcCondtions), idarr, 0, stack[sp-1].minPos, len(srcCondtions))
  hint sp >= 2 ==> Rbad(old(srcCondtions), idarr, 0, stack[sp-2].minPos, len(srcCondtions))
  hint Rnoop(conditions, idarr, 0, len(conditions))
  loop 2
    import +spr +copy +vals +posA +posB +posEnds +posEmpty +posLt +posAdj +srcSingle +known +ops +mine
    invariant condSingle: forall k in 0..sp :: {stack[k].minPos} isPush(R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1)) && rest(R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1)) == Nil using keepPos keepR pushC top1 condSingle spr
    invariant full: forall k in 0..sp :: {stack[k].minPos} stack[k].cond.Opcode != SoqlConditionOpcode_Unknown && !stack[k].partial ==> top(R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1)) == top(R(old(srcCondtions), idarr, stack[k].minPos, stack[k].srcPos+1)) using keepPos keepR fullN top1 full spr srcSingle
    invariant part: forall k in 0..sp :: {stack[k].minPos} stack[k].cond.Opcode != SoqlConditionOpcode_Unknown && stack[k].partial ==> isTruth(top(R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1))) && isTruth(top(R(old(srcCondtions), idarr, stack[k].minPos, stack[k].srcPos+1))) && (truth(top(R(old(srcCondtions), idarr, stack[k].minPos, stack[k].srcPos+1))) ==> truth(top(R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1)))) using keepPos keepR partN top1 part spr srcSingle
    hint rc3: head(sp) >= 2 ==> Rcompose(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos), head(i))
    hint cc: head(sp) >= 2 ==> Rcompose(conditions, idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos), head(i))
    hint rn1: head(sp) >= 2 ==> Rnoop(conditions, idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos))
    hint rn2: head(sp) >= 2 ==> Rnoop(conditions, idarr, head(stack[sp-2].minPos), head(i))
    hint rn3: head(sp) >= 2 ==> Rnoop(conditions, idarr, head(stack[sp-1].minPos), head(i))
    hint rx1: head(sp) >= 2 ==> Rext(head(conditions), conditions, idarr, idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos))
    hint rx2: head(sp) >= 2 ==> Rext(head(conditions), conditions, idarr, idarr, head(stack[sp-1].minPos), head(i))
    hint rxk: forall k in 0..head(sp) :: {head(stack[k].minPos)} Rext(head(conditions), conditions, idarr, idarr, head(stack[k].minPos), head(stack[k].srcPos)+1)
    hint cch: head(sp) >= 2 ==> Rcompose(head(conditions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos), head(i))
    hint old2: assert(head(sp) >= 2 ==> R(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(i)) == Push(top(R(old(srcCondtions), idarr, head(stack[sp-1].minPos), head(i))), Push(top(R(old(srcCondtions), idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos))), Nil))) using rc3 spr posA posB posEnds posAdj srcSingle
    hint con2: assert(head(sp) >= 2 ==> head(R(conditions, idarr, stack[sp-2].minPos, i)) == Push(head(top(R(conditions, idarr, stack[sp-1].minPos, i))), Push(head(top(R(conditions, idarr, stack[sp-2].minPos, stack[sp-1].minPos))), Nil))) using cch spr posA posB posEnds posAdj condSingle
    hint keepPos: assert(forall k in 0..sp-1 :: {stack[k].minPos} stack[k].minPos == head(stack[k].minPos) && stack[k].srcPos == head(stack[k].srcPos) && stack[k].cond.Opcode == head(stack[k].cond.Opcode) && stack[k].partial == head(stack[k].partial))
    hint keepR: assert(forall k in 0..sp-1 :: {stack[k].minPos} R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1) == head(R(conditions, idarr, stack[k].minPos, stack[k].srcPos+1)))
    hint top1: assert(i > head(i) ==> stack[sp-1].srcPos == head(i) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Not && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Noop)
    hint bin: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(sp) >= 2 && stack[sp-1].minPos == head(stack[sp-2].minPos) && sp == head(sp) - 1)
    hint opd: assert(i > head(i) && isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> stack[sp-1].minPos == head(i) && sp == head(sp) + 1 && isOperandOp(conditions[head(i)].Opcode))
    hint rx3: head(sp) >= 2 ==> Rext(head(conditions), conditions, idarr, idarr, head(stack[sp-2].minPos), head(i))
    hint c21: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && conditions[head(i)].Opcode == old(srcCondtions[head(i)].Opcode) ==> R(conditions, idarr, head(stack[sp-2].minPos), head(i)) == head(R(conditions, idarr, stack[sp-2].minPos, i)))
    hint na: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && conditions[head(i)].Opcode == SoqlConditionOpcode_Noop ==> head(sp) >= 2 && ((head(stack[sp-2].cond.Opcode) == SoqlConditionOpcode_Unknown && !(head(stack[sp-1].cond.Opcode) == SoqlConditionOpcode_Unknown)) || (head(stack[sp-1].cond.Opcode) == SoqlConditionOpcode_Unknown && !(head(stack[sp-2].cond.Opcode) == SoqlConditionOpcode_Unknown))))
    hint nb: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && conditions[head(i)].Opcode == SoqlConditionOpcode_Noop && head(stack[sp-2].cond.Opcode) == SoqlConditionOpcode_Unknown ==> R(conditions, idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos)) == Nil && R(conditions, idarr, head(stack[sp-1].minPos), head(i)) == head(R(conditions, idarr, stack[sp-1].minPos, i)))
    hint nc: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && conditions[head(i)].Opcode == SoqlConditionOpcode_Noop && head(stack[sp-1].cond.Opcode) == SoqlConditionOpcode_Unknown ==> R(conditions, idarr, head(stack[sp-1].minPos), head(i)) == Nil && R(conditions, idarr, head(stack[sp-2].minPos), head(stack[sp-1].minPos)) == head(R(conditions, idarr, stack[sp-2].minPos, stack[sp-1].minPos)))
    hint c22: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && conditions[head(i)].Opcode == SoqlConditionOpcode_Noop ==> (R(conditions, idarr, head(stack[sp-2].minPos), head(i)) == head(R(conditions, idarr, stack[sp-1].minPos, i)) && head(stack[sp-2].cond.Opcode) == SoqlConditionOpcode_Unknown && head(stack[sp-1].cond.Opcode) != SoqlConditionOpcode_Unknown) || (R(conditions, idarr, head(stack[sp-2].minPos), head(i)) == head(R(conditions, idarr, stack[sp-2].minPos, stack[sp-1].minPos)) && head(stack[sp-1].cond.Opcode) == SoqlConditionOpcode_Unknown && head(stack[sp-2].cond.Opcode) != SoqlConditionOpcode_Unknown)) using na nb nc cc condSingle spr posA posB posEnds posAdj
    hint c23: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && conditions[head(i)].Opcode == SoqlConditionOpcode_Unknown ==> R(conditions, idarr, head(stack[sp-2].minPos), head(i)) == Nil)
    hint c24: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> conditions[head(i)].Opcode == old(srcCondtions[head(i)].Opcode) || conditions[head(i)].Opcode == SoqlConditionOpcode_Noop || conditions[head(i)].Opcode == SoqlConditionOpcode_Unknown)
    hint tv: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && stack[sp-1].cond.Opcode != SoqlConditionOpcode_Unknown ==> (conditions[head(i)].Opcode == old(srcCondtions[head(i)].Opcode) && head(stack[sp-2].cond.Opcode) != SoqlConditionOpcode_Unknown && head(stack[sp-1].cond.Opcode) != SoqlConditionOpcode_Unknown && (stack[sp-1].partial <==> head(stack[sp-2].partial) || head(stack[sp-1].partial)) && (stack[sp-1].partial ==> old(srcCondtions[head(i)].Opcode) == SoqlConditionOpcode_And)) || (conditions[head(i)].Opcode == SoqlConditionOpcode_Noop && old(srcCondtions[head(i)].Opcode) == SoqlConditionOpcode_And && stack[sp-1].partial))
    hint stO: assert(i > head(i) ==> R(old(srcCondtions), idarr, stack[sp-1].minPos, i) == step(old(srcCondtions[head(i)].Opcode), head(i), R(old(srcCondtions), idarr, stack[sp-1].minPos, head(i))))
    hint stC: assert(i > head(i) ==> R(conditions, idarr, stack[sp-1].minPos, i) == step(conditions[head(i)].Opcode, head(i), R(conditions, idarr, stack[sp-1].minPos, head(i))))
    hint pushC: assert(i > head(i) ==> isPush(R(conditions, idarr, stack[sp-1].minPos, i)) && rest(R(conditions, idarr, stack[sp-1].minPos, i)) == Nil) using stC c21 c22 c23 c24 con2 old2 stO srcSingle full part condSingle top1 bin opd spr posA posB posEnds posAdj
    hint fullN: assert(i > head(i) && stack[sp-1].cond.Opcode != SoqlConditionOpcode_Unknown && !stack[sp-1].partial ==> top(R(conditions, idarr, stack[sp-1].minPos, i)) == top(R(old(srcCondtions), idarr, stack[sp-1].minPos, i))) using stC c21 c22 c23 c24 con2 old2 stO srcSingle full part condSingle top1 bin opd spr posA posB posEnds posAdj pushC tv
    hint partN: assert(i > head(i) && stack[sp-1].cond.Opcode != SoqlConditionOpcode_Unknown && stack[sp-1].partial ==> isTruth(top(R(conditions, idarr, stack[sp-1].minPos, i))) && isTruth(top(R(old(srcCondtions), idarr, stack[sp-1].minPos, i))) && (truth(top(R(old(srcCondtions), idarr, stack[sp-1].minPos, i))) ==> truth(top(R(conditions, idarr, stack[sp-1].minPos, i))))) using stC c21 c22 c23 c24 con2 old2 stO srcSingle full part condSingle top1 bin opd spr posA posB posEnds posAdj pushC tv
  loop 3
    import *
  loop 4
    import *
  loop 5
    import *
  loop 6
    import *
  loop 7
    import *
  loop 8
    import *
  loop 9
    import *
