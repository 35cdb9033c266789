// Which entries of a condition are retained for an object: the retained entries are complete operands, joined by the
// and-operators both of whose sides have a retained entry.

// the first entry of the operand that entry j completes
fn st(c []SoqlCondition S, j int) int = j <= 0 || isOperandOp(c[j].Opcode) ? j : st(c, st(c, j-1) - 1)

lemma stle(c []SoqlCondition S, j int)
  ensures st(c, j) <= j
  decreases j
  ih c, j-1
  ih c, st(c, j-1)-1

lemma stlt(c []SoqlCondition S, j int)
  requires j > 0 && !isOperandOp(c[j].Opcode)
  hint stle(c, j-1) && stle(c, st(c, j-1)-1)
  ensures st(c, j) < st(c, j-1) && st(c, j-1) < j

fn ret(o int) bool = o != SoqlConditionOpcode_Noop && o != SoqlConditionOpcode_Unknown
// an entry of a..b is retained
fn kn(c []SoqlCondition, a int, b int) bool = b <= a ? false : ret(c[b-1].Opcode) || kn(c, a, b-1)

lemma knext(c []SoqlCondition S, d []SoqlCondition T, a int, b int)
  requires forall j in a..b :: ret(c[j].Opcode) <==> ret(d[j].Opcode)
  ensures kn(c, a, b) <==> kn(d, a, b)
  decreases b - a
  ih c, d, a, b-1

lemma knnone(c []SoqlCondition S, a int, b int)
  requires forall j in a..b :: !ret(c[j].Opcode)
  ensures !kn(c, a, b)
  decreases b - a
  ih c, a, b-1

lemma knmem(c []SoqlCondition S, a int, b int, j int)
  requires a <= j && j < b && ret(c[j].Opcode)
  ensures kn(c, a, b)
  decreases b - a
  ih c, a, b-1, j

lemma knsplit(c []SoqlCondition S, a int, m int, b int)
  requires a <= m && m <= b
  ensures kn(c, a, b) <==> kn(c, a, m) || kn(c, m, b)
  decreases b - a
  ih c, a, m, b-1

aspect postprocess.makePerObjectConditions#structure
  props C05 C04
  ensures forall j in 0..len(srcCondtions), p in 0..len(srcCondtions) :: {result1[p].Opcode, result1[j].Opcode} old(srcCondtions[j].Opcode) != SoqlConditionOpcode_And && st(old(srcCondtions), j) <= p && p <= j ==> (ret(result1[p].Opcode) <==> ret(result1[j].Opcode))
  loop 2
    import spr copy posA posB posEnds posEmpty posLt posAdj ops known
    invariant start: forall k in 0..sp :: {stack[k].minPos} stack[k].minPos == st(old(srcCondtions), stack[k].srcPos)
    invariant nest: forall k in 0..sp, j in 0..len(conditions) :: {stack[k].minPos, st(old(srcCondtions), j)} stack[k].minPos <= j && j <= stack[k].srcPos ==> stack[k].minPos <= st(old(srcCondtions), j)
    invariant unk: forall k in 0..sp, j in 0..len(conditions) :: {stack[k].minPos, conditions[j].Opcode} stack[k].cond.Opcode == SoqlConditionOpcode_Unknown && stack[k].minPos <= j && j <= stack[k].srcPos ==> !ret(conditions[j].Opcode)
    invariant whole: forall k in 0..sp, j in 0..len(conditions) :: {stack[k].minPos, conditions[j].Opcode} stack[k].cond.Opcode != SoqlConditionOpcode_Unknown && !stack[k].partial && stack[k].minPos <= j && j <= stack[k].srcPos ==> ret(conditions[j].Opcode)
    invariant shape1: forall j in 0..i, p in 0..i :: {conditions[p].Opcode, conditions[j].Opcode} old(srcCondtions[j].Opcode) != SoqlConditionOpcode_And && st(old(srcCondtions), j) <= p && p <= j ==> (ret(conditions[p].Opcode) <==> ret(conditions[j].Opcode)) using s1old s1new top1
    hint head(sp) >= 1 ==> stle(old(srcCondtions), head(i)-1)
    hint assert(forall k in 0..sp-1 :: {stack[k].minPos} stack[k].minPos == head(stack[k].minPos) && stack[k].srcPos == head(stack[k].srcPos))
    hint tp: assert(i > head(i) ==> stack[sp-1].srcPos == head(i) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Noop)
    hint opd: assert(i > head(i) && isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> stack[sp-1].minPos == head(i) && sp == head(sp) + 1)
    hint bin: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(sp) >= 2 && stack[sp-1].minPos == head(stack[sp-2].minPos) && sp == head(sp) - 1)
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> st(old(srcCondtions), head(i)) == st(old(srcCondtions), st(old(srcCondtions), head(i)-1)-1))
    hint adj: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(stack[sp-1].srcPos) == head(i)-1 && head(stack[sp-2].srcPos) == head(stack[sp-1].minPos)-1)
    hint mst: assert(i > head(i) ==> stack[sp-1].minPos == st(old(srcCondtions), head(i)))
    hint top1: assert(i == head(i) || i == head(i) + 1)
    hint s1old: assert(i > head(i) ==> (forall j in 0..head(i), p in 0..head(i) :: {conditions[p].Opcode, conditions[j].Opcode} old(srcCondtions[j].Opcode) != SoqlConditionOpcode_And && st(old(srcCondtions), j) <= p && p <= j ==> (ret(conditions[p].Opcode) <==> ret(conditions[j].Opcode))))
    hint s1k: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_And && conditions[head(i)].Opcode != SoqlConditionOpcode_Unknown ==> head(stack[sp-2].cond.Opcode) != SoqlConditionOpcode_Unknown && !head(stack[sp-2].partial) && head(stack[sp-1].cond.Opcode) != SoqlConditionOpcode_Unknown && !head(stack[sp-1].partial) && ret(conditions[head(i)].Opcode) && (forall p in 0..head(i) :: {conditions[p].Opcode} conditions[p].Opcode == head(conditions[p].Opcode)))
    hint s1u: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_And && conditions[head(i)].Opcode == SoqlConditionOpcode_Unknown ==> (forall p in stack[sp-1].minPos..head(i) :: {conditions[p].Opcode} conditions[p].Opcode == SoqlConditionOpcode_Noop))
    hint s1w: assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_And && conditions[head(i)].Opcode != SoqlConditionOpcode_Unknown ==> (forall p in stack[sp-1].minPos..head(i) :: {head(conditions[p].Opcode)} ret(head(conditions[p].Opcode)))) using s1k whole spr posA posB posEnds posAdj bin adj
    hint s1new: assert(i > head(i) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_And ==> (forall p in 0..i :: {conditions[p].Opcode} st(old(srcCondtions), head(i)) <= p ==> (ret(conditions[p].Opcode) <==> ret(conditions[head(i)].Opcode)))) using s1k s1u s1w mst opd bin tp top1 spr posA
  loop 3
    import *
  loop 4
    import *
  loop 5
    import *
  loop 6
    import *
  loop 7
    import *
  loop 8
    import *
  loop 9
    import *

aspect postprocess.makePerObjectConditions#retained
  props C05 C04
  loop 2
    import spr copy posA posB posEnds posEmpty posLt posAdj ops known srcSingle structure.start structure.nest structure.unk structure.whole structure.shape1
    invariant kno: forall k in 0..sp :: {stack[k].minPos} stack[k].cond.Opcode != SoqlConditionOpcode_Unknown ==> kn(conditions, stack[k].minPos, stack[k].srcPos+1)
    hint head(sp) >= 1 ==> stle(old(srcCondtions), head(i)-1)
    hint kst: assert(forall k in 0..sp-1 :: {stack[k].minPos} stack[k].minPos == head(stack[k].minPos) && stack[k].srcPos == head(stack[k].srcPos))
    hint assert(i > head(i) ==> stack[sp-1].srcPos == head(i) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Noop)
    hint assert(i > head(i) && isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> stack[sp-1].minPos == head(i) && sp == head(sp) + 1)
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(sp) >= 2 && stack[sp-1].minPos == head(stack[sp-2].minPos) && sp == head(sp) - 1)
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> st(old(srcCondtions), head(i)) == st(old(srcCondtions), st(old(srcCondtions), head(i)-1)-1))
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(stack[sp-1].srcPos) == head(i)-1 && head(stack[sp-2].srcPos) == head(stack[sp-1].minPos)-1)
    hint assert(i > head(i) ==> stack[sp-1].minPos == st(old(srcCondtions), head(i)))
    hint kx: forall k in 0..sp-1 :: {stack[k].minPos} knext(head(conditions), conditions, stack[k].minPos, stack[k].srcPos+1)
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knsplit(conditions, stack[sp-1].minPos, head(stack[sp-1].minPos), head(i))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knext(head(conditions), conditions, stack[sp-1].minPos, head(stack[sp-1].minPos)) && knext(head(conditions), conditions, head(stack[sp-1].minPos), head(i))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knnone(conditions, stack[sp-1].minPos, head(stack[sp-1].minPos)) && knnone(conditions, head(stack[sp-1].minPos), head(i))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knnone(head(conditions), stack[sp-1].minPos, head(stack[sp-1].minPos)) && knnone(head(conditions), head(stack[sp-1].minPos), head(i))
    hint seg: assert(forall k in 0..sp-1 :: {stack[k].minPos} (forall p in stack[k].minPos..stack[k].srcPos+1 :: {conditions[p].Opcode} conditions[p].Opcode == head(conditions[p].Opcode)))
    hint cnd: assert(forall k in 0..sp-1 :: {stack[k].minPos} stack[k].cond.Opcode == head(stack[k].cond.Opcode))
    hint knk: assert(forall k in 0..sp-1 :: {stack[k].minPos} kn(conditions, stack[k].minPos, stack[k].srcPos+1) <==> head(kn(conditions, stack[k].minPos, stack[k].srcPos+1))) using seg kx kst
    hint assert(i > head(i) ==> (kn(conditions, stack[sp-1].minPos, i) <==> ret(conditions[head(i)].Opcode) || kn(conditions, stack[sp-1].minPos, head(i))))
    hint assert(i > head(i) && stack[sp-1].cond.Opcode != SoqlConditionOpcode_Unknown ==> kn(conditions, stack[sp-1].minPos, i))
  loop 3
    import *
  loop 4
    import *
  loop 5
    import *
  loop 6
    import *
  loop 7
    import *
  loop 8
    import *
  loop 9
    import *

aspect postprocess.makePerObjectConditions#operands
  props C05
  ensures forall j in 0..len(srcCondtions) :: {st(old(srcCondtions), j)} isPush(R(old(srcCondtions), idarr, st(old(srcCondtions), j), j+1)) && rest(R(old(srcCondtions), idarr, st(old(srcCondtions), j), j+1)) == Nil
  loop 2
    import +spr +posA +posB +posEnds +posEmpty +srcSingle +structure.start
    invariant srcSubs: forall j in 0..i :: {st(old(srcCondtions), j)} isPush(R(old(srcCondtions), idarr, st(old(srcCondtions), j), j+1)) && rest(R(old(srcCondtions), idarr, st(old(srcCondtions), j), j+1)) == Nil using spr posA posB posEnds srcSingle start1 srcSubs
    hint start1: assert(i > head(i) ==> sp >= 1 && i == head(i) + 1 && stack[sp-1].minPos == st(old(srcCondtions), head(i)))

aspect postprocess.makePerObjectConditions#span
  props C05
  ensures forall j in 0..len(srcCondtions) :: {st(old(srcCondtions), j)} 0 <= st(old(srcCondtions), j) && st(old(srcCondtions), j) <= j
  ensures len(srcCondtions) > 0 ==> st(old(srcCondtions), len(srcCondtions)-1) == 0
  hint e1: sp >= 1 ==> Rcompose(old(srcCondtions), idarr, 0, stack[sp-1].minPos, len(srcCondtions))
  hint e2: sp >= 2 ==> Rcompose(old(srcCondtions), idarr, 0, stack[sp-2].minPos, stack[sp-1].minPos)
  hint e3: sp >= 1 ==> Rbad(old(srcCondtions), idarr, 0, stack[sp-1].minPos, len(srcCondtions))
  hint e4: sp >= 2 ==> Rbad(old(srcCondtions), idarr, 0, stack[sp-2].minPos, len(srcCondtions))
  hint one: assert(sp <= 1) using e1 e2 e3 e4 spr posA posB posEnds posEmpty posLt posAdj srcSingle wf
  loop 2
    import +spr +posA +posB +posEnds +posEmpty +posLt +posAdj +srcSingle +structure.start
    invariant low: forall j in 0..i :: {st(old(srcCondtions), j)} 0 <= st(old(srcCondtions), j) && st(old(srcCondtions), j) <= j
    hint assert(i > head(i) ==> stack[sp-1].minPos == st(old(srcCondtions), head(i)))
    hint stle(old(srcCondtions), head(i))

aspect postprocess.makePerObjectConditions#joins
  props C05 C04
  ensures forall j in 0..len(srcCondtions) :: {result1[j].Opcode} old(srcCondtions[j].Opcode) == SoqlConditionOpcode_And ==> (ret(result1[j].Opcode) <==> kn(result1, st(old(srcCondtions), j), st(old(srcCondtions), j-1)) && kn(result1, st(old(srcCondtions), j-1), j))
  hint forall j in 0..len(srcCondtions) :: {result1[j].Opcode} knnone(result1, st(old(srcCondtions), j), st(old(srcCondtions), j-1))
  hint forall j in 0..len(srcCondtions) :: {result1[j].Opcode} knnone(result1, st(old(srcCondtions), j-1), j)
  loop 2
    import spr copy posA posB posEnds posEmpty posLt posAdj ops known srcSingle structure.start structure.nest structure.unk structure.whole structure.shape1 retained.kno span.low
    invariant shape2: forall j in 0..i :: {conditions[j].Opcode} old(srcCondtions[j].Opcode) == SoqlConditionOpcode_And ==> (ret(conditions[j].Opcode) <==> kn(conditions, st(old(srcCondtions), j), st(old(srcCondtions), j-1)) && kn(conditions, st(old(srcCondtions), j-1), j)) using sold snew top1
    hint head(sp) >= 1 ==> stle(old(srcCondtions), head(i)-1)
    hint assert(forall k in 0..sp-1 :: {stack[k].minPos} stack[k].minPos == head(stack[k].minPos) && stack[k].srcPos == head(stack[k].srcPos))
    hint assert(i > head(i) ==> stack[sp-1].srcPos == head(i) && old(srcCondtions[head(i)].Opcode) != SoqlConditionOpcode_Noop)
    hint assert(i > head(i) && isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> stack[sp-1].minPos == head(i) && sp == head(sp) + 1)
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(sp) >= 2 && stack[sp-1].minPos == head(stack[sp-2].minPos) && sp == head(sp) - 1)
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> st(old(srcCondtions), head(i)) == st(old(srcCondtions), st(old(srcCondtions), head(i)-1)-1))
    hint assert(i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> head(stack[sp-1].srcPos) == head(i)-1 && head(stack[sp-2].srcPos) == head(stack[sp-1].minPos)-1)
    hint assert(i > head(i) ==> stack[sp-1].minPos == st(old(srcCondtions), head(i)))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knsplit(conditions, stack[sp-1].minPos, head(stack[sp-1].minPos), head(i))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knext(head(conditions), conditions, stack[sp-1].minPos, head(stack[sp-1].minPos)) && knext(head(conditions), conditions, head(stack[sp-1].minPos), head(i))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knnone(conditions, stack[sp-1].minPos, head(stack[sp-1].minPos)) && knnone(conditions, head(stack[sp-1].minPos), head(i))
    hint i > head(i) && !isOperandOp(old(srcCondtions[head(i)].Opcode)) ==> knnone(head(conditions), stack[sp-1].minPos, head(stack[sp-1].minPos)) && knnone(head(conditions), head(stack[sp-1].minPos), head(i))
    hint assert(i > head(i) && old(srcCondtions[head(i)].Opcode) == SoqlConditionOpcode_And ==> (ret(conditions[head(i)].Opcode) <==> kn(conditions, stack[sp-1].minPos, head(stack[sp-1].minPos)) && kn(conditions, head(stack[sp-1].minPos), head(i))))
    hint assert(i > head(i) && old(srcCondtions[head(i)].Opcode) == SoqlConditionOpcode_And ==> st(old(srcCondtions), head(i)-1) == head(stack[sp-1].minPos))
    hint forall j in 0..head(i) :: {conditions[j].Opcode} knext(head(conditions), conditions, st(old(srcCondtions), j), st(old(srcCondtions), j-1))
    hint forall j in 0..head(i) :: {conditions[j].Opcode} knext(head(conditions), conditions, st(old(srcCondtions), j-1), j)
    hint forall j in 0..head(i) :: {conditions[j].Opcode} knnone(conditions, st(old(srcCondtions), j), st(old(srcCondtions), j-1))
    hint forall j in 0..head(i) :: {conditions[j].Opcode} knnone(conditions, st(old(srcCondtions), j-1), j)
    hint forall j in 1..head(i) :: {conditions[j].Opcode} !isOperandOp(old(srcCondtions[j].Opcode)) ==> stlt(old(srcCondtions), j)
    hint assert(i > head(i) ==> (forall j in 0..head(i) :: {conditions[j].Opcode} (forall p in st(old(srcCondtions), j)..j+1 :: {conditions[p].Opcode} conditions[p].Opcode == head(conditions[p].Opcode)) || (forall p in st(old(srcCondtions), j)..j+1 :: {conditions[p].Opcode} !ret(conditions[p].Opcode))))
    hint sold: assert(i > head(i) ==> (forall j in 0..head(i) :: {conditions[j].Opcode} old(srcCondtions[j].Opcode) == SoqlConditionOpcode_And ==> (ret(conditions[j].Opcode) <==> kn(conditions, st(old(srcCondtions), j), st(old(srcCondtions), j-1)) && kn(conditions, st(old(srcCondtions), j-1), j))))
    hint top1: assert(i == head(i) || i == head(i) + 1)
    hint snew: assert(i > head(i) && old(srcCondtions[head(i)].Opcode) == SoqlConditionOpcode_And ==> (ret(conditions[head(i)].Opcode) <==> kn(conditions, st(old(srcCondtions), head(i)), st(old(srcCondtions), head(i)-1)) && kn(conditions, st(old(srcCondtions), head(i)-1), head(i))))
  loop 3
    import *
  loop 4
    import *
  loop 5
    import *
  loop 6
    import *
  loop 7
    import *
  loop 8
    import *
  loop 9
    import *
