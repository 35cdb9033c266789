// The filter after the join: together with the filters of the objects it is the filter of the query.

smt
(declare-fun slen (Stk) Int)
(assert (= (slen Nil) 0))
(assert (forall ((s Stk)) (! (and (<= 0 (slen s)) (=> (= (slen s) 0) (or (= s Nil) (= s Bad)))) :pattern ((slen s)))))
(assert (forall ((v Tv) (s Stk)) (! (= (slen (Push v s)) (+ 1 (slen s))) :pattern ((slen (Push v s))))))
(assert (forall ((s Stk)) (! (=> ((_ is Push) s) (= (slen s) (+ 1 (slen (rest s))))) :pattern ((slen s) (rest s)))))
; the stack holds truth values only
(declare-fun allt (Stk) Bool)
(assert (allt Nil))
(assert (not (allt Bad)))
(assert (forall ((v Tv) (s Stk)) (! (= (allt (Push v s)) (and ((_ is Truth) v) (allt s))) :pattern ((allt (Push v s))))))
(assert (forall ((s Stk)) (! (=> ((_ is Push) s) (= (allt s) (and ((_ is Truth) (top s)) (allt (rest s))))) :pattern ((allt s) (rest s)))))
; their conjunction
(declare-fun conj (Stk) Bool)
(assert (conj Nil))
(assert (forall ((v Tv) (s Stk)) (! (= (conj (Push v s)) (and (truth v) (conj s))) :pattern ((conj (Push v s))))))
(assert (forall ((s Stk)) (! (=> ((_ is Push) s) (= (conj s) (and (truth (top s)) (conj (rest s))))) :pattern ((conj s) (rest s)))))
end

ufun slen(s Stk) int
ufun allt(s Stk) bool
ufun conj(s Stk) bool

// an and-operator without two operands is left out
fn gstep(o int, id int, s Stk) Stk = o == SoqlConditionOpcode_And && (isNil(s) || (isPush(s) && isNil(rest(s)))) ? s : step(o, id, s)

// the stack after running d[a..b) from the stack s in this way
fn G(d []SoqlCondition, a int, b int, s Stk) Stk =
  b <= a ? s : gstep(d[b-1].Opcode, b-1, G(d, a, b-1, s))

lemma Gbad(d []SoqlCondition S, a int, m int, b int, s Stk)
  requires m <= b && G(d, a, b, s) != Bad
  ensures G(d, a, m, s) != Bad
  decreases b - m
  ih d, a, m, b-1, s

lemma Gcompose(d []SoqlCondition S, a int, m int, b int, s Stk)
  requires a <= m && m <= b
  ensures G(d, a, b, s) == G(d, m, b, G(d, a, m, s))
  decreases b - m
  ih d, a, m, b-1, s

// where nothing is taken out, it is the ordinary run
lemma Gcat(d []SoqlCondition S, w []SoqlCondition T, a int, b int, s Stk)
  requires forall j in a..b :: d[j].Opcode == w[j].Opcode
  requires R(w, idarr, a, b) != Bad && s != Bad
  ensures G(d, a, b, s) == cat(R(w, idarr, a, b), s)
  decreases b - a
  ih d, w, a, b-1, s

// where everything is taken out, nothing happens
lemma Gnoop(d []SoqlCondition S, a int, b int, s Stk)
  requires forall j in a..b :: d[j].Opcode == SoqlConditionOpcode_Noop
  ensures G(d, a, b, s) == s
  decreases b - a
  ih d, a, b-1, s

fn sng(s Stk) bool = isPush(s) && rest(s) == Nil

// an entry of a..b is taken out
fn tk(d []SoqlCondition, a int, b int) bool = b <= a ? false : d[b-1].Opcode == SoqlConditionOpcode_Noop || tk(d, a, b-1)

lemma tksplit(d []SoqlCondition S, a int, m int, b int)
  requires a <= m && m <= b
  ensures tk(d, a, b) <==> tk(d, a, m) || tk(d, m, b)
  decreases b - a
  ih d, a, m, b-1

lemma tknone(d []SoqlCondition S, a int, b int)
  requires forall k in a..b :: {d[k].Opcode} d[k].Opcode != SoqlConditionOpcode_Noop
  ensures !tk(d, a, b)
  decreases b - a
  ih d, a, b-1

lemma kntk(p []SoqlCondition S, d []SoqlCondition T, a int, b int)
  requires forall k in a..b :: {d[k].Opcode} ret(p[k].Opcode) ==> d[k].Opcode == SoqlConditionOpcode_Noop
  ensures kn(p, a, b) ==> tk(d, a, b)
  decreases b - a
  ih p, d, a, b-1

// the condition of one object, p, made from the condition w of the query
fn isObjCond(w []SoqlCondition S, p []SoqlCondition T) bool = len(p) == len(w) &&
  (forall k in 0..len(w) :: {p[k].Opcode} p[k].Opcode == SoqlConditionOpcode_Noop || (ret(p[k].Opcode) && p[k].Opcode == w[k].Opcode)) &&
  (forall k in 0..len(w), q in 0..len(w) :: {p[q].Opcode, p[k].Opcode} w[k].Opcode != SoqlConditionOpcode_And && st(w, k) <= q && q <= k ==> (ret(p[q].Opcode) <==> ret(p[k].Opcode))) &&
  (forall k in 0..len(w) :: {p[k].Opcode} w[k].Opcode == SoqlConditionOpcode_And ==> (ret(p[k].Opcode) <==> kn(p, st(w, k), st(w, k-1)) && kn(p, st(w, k-1), k)))

// every entry of w completes an operand
fn isTree(w []SoqlCondition) bool =
  (forall k in 0..len(w) :: {w[k].Opcode} w[k].Opcode != SoqlConditionOpcode_Noop && w[k].Opcode != SoqlConditionOpcode_Not) &&
  (forall k in 0..len(w) :: {st(w, k)} 0 <= st(w, k) && st(w, k) <= k && sng(R(w, idarr, st(w, k), k+1)))

// what the condition of the object says about the operand which entry j completes
fn says(w []SoqlCondition S, p []SoqlCondition T, j int) bool = kn(p, st(w, j), j+1) ==> truth(top(R(p, idarr, st(w, j), j+1)))

// the sides of an operator
lemma sides(w []SoqlCondition S, j int)
  requires isTree(w) && 0 <= j && j < len(w) && !isOperandOp(w[j].Opcode)
  hint stlt(w, j)
  hint Rbad(w, idarr, st(w, j), st(w, j-1), j+1) && Rbad(w, idarr, st(w, j), j, j+1)
  hint Rcompose(w, idarr, st(w, j), st(w, j-1), j)
  ensures 0 < j && 0 < st(w, j-1) && st(w, j) == st(w, st(w, j-1)-1) && st(w, j) < st(w, j-1) && st(w, j-1) < j
  ensures R(w, idarr, st(w, j), j) == Push(top(R(w, idarr, st(w, j-1), j)), Push(top(R(w, idarr, st(w, j), st(w, j-1))), Nil))

lemma objCond(w []SoqlCondition S, p []SoqlCondition T, j int)
  requires isTree(w)
  requires isObjCond(w, p)
  requires 0 <= j && j < len(w)
  hint !isOperandOp(w[j].Opcode) ==> sides(w, j)
  hint Rext(w, p, idarr, idarr, st(w, j), j+1) && Rnoop(p, idarr, st(w, j), j+1) && knnone(p, st(w, j), j+1)
  hint w[j].Opcode == SoqlConditionOpcode_And ==> Rcompose(p, idarr, st(w, j), st(w, j-1), j) && knsplit(p, st(w, j), st(w, j-1), j)
  ensures kn(p, st(w, j), j+1) ==> sng(R(p, idarr, st(w, j), j+1))
  ensures kn(p, st(w, j), j+1) && isTruth(top(R(w, idarr, st(w, j), j+1))) ==> isTruth(top(R(p, idarr, st(w, j), j+1)))
  ensures !kn(p, st(w, j), j+1) ==> R(p, idarr, st(w, j), j+1) == Nil
  ensures w[j].Opcode != SoqlConditionOpcode_And ==> (kn(p, st(w, j), j+1) <==> ret(p[j].Opcode))
  ensures w[j].Opcode != SoqlConditionOpcode_And && ret(p[j].Opcode) ==> R(p, idarr, st(w, j), j+1) == R(w, idarr, st(w, j), j+1)
  ensures w[j].Opcode == SoqlConditionOpcode_And ==> (says(w, p, j) <==> says(w, p, j-1) && says(w, p, st(w, j-1)-1))
  decreases j
  ih w, p, j-1
  ih w, p, st(w, j-1)-1

// d consists of the entries of w which no object of f has applied
fn isRest(w []SoqlCondition S, d []SoqlCondition T, f []SoqlObjectInfo S) bool = len(d) == len(w) &&
  (forall k in 0..len(w) :: {d[k].Opcode} d[k].Opcode == SoqlConditionOpcode_Noop || d[k].Opcode == w[k].Opcode) &&
  (forall i in 0..len(f), k in 0..len(w) :: {f[i].PerObjectQuery, d[k].Opcode} ret(f[i].PerObjectQuery.Where[k].Opcode) ==> d[k].Opcode == SoqlConditionOpcode_Noop) &&
  (forall k in 0..len(w) :: {d[k].Opcode} d[k].Opcode == SoqlConditionOpcode_Noop ==> (exists i in 0..len(f) :: {f[i].PerObjectQuery} ret(f[i].PerObjectQuery.Where[k].Opcode)))

fn allSay(w []SoqlCondition S, f []SoqlObjectInfo S, j int) bool = forall i in 0..len(f) :: {f[i].PerObjectQuery} says(w, f[i].PerObjectQuery.Where, j)

fn max(a int, b int) int = a < b ? b : a

lemma restLeaf(w []SoqlCondition S, d []SoqlCondition T, f []SoqlObjectInfo S, j int, s Stk)
  requires isTree(w)
  requires forall i in 0..len(f) :: {f[i].PerObjectQuery} isObjCond(w, f[i].PerObjectQuery.Where)
  requires isRest(w, d, f)
  requires 0 <= j && j < len(w) && w[j].Opcode != SoqlConditionOpcode_And
  requires allt(s) && isTruth(top(R(w, idarr, st(w, j), j+1)))
  hint forall i in 0..len(f) :: {f[i].PerObjectQuery} objCond(w, f[i].PerObjectQuery.Where, j)
  hint Gcat(d, w, st(w, j), j+1, s) && Gnoop(d, st(w, j), j+1, s) && tknone(d, st(w, j), j+1)
  ensures allt(G(d, st(w, j), j+1, s))
  ensures conj(G(d, st(w, j), j+1, s)) && allSay(w, f, j) <==> conj(s) && truth(top(R(w, idarr, st(w, j), j+1)))
  ensures slen(G(d, st(w, j), j+1, s)) <= (tk(d, st(w, j), j+1) ? max(slen(s), 1) : slen(s) + 1)

lemma restTree(w []SoqlCondition S, d []SoqlCondition T, f []SoqlObjectInfo S, j int, s Stk)
  requires isTree(w)
  requires forall i in 0..len(f) :: {f[i].PerObjectQuery} isObjCond(w, f[i].PerObjectQuery.Where)
  requires isRest(w, d, f)
  requires 0 <= j && j < len(w)
  requires allt(s) && isTruth(top(R(w, idarr, st(w, j), j+1)))
  hint w[j].Opcode == SoqlConditionOpcode_And ==> sides(w, j)
  hint w[j].Opcode != SoqlConditionOpcode_And ==> restLeaf(w, d, f, j, s)
  hint forall i in 0..len(f) :: {f[i].PerObjectQuery} objCond(w, f[i].PerObjectQuery.Where, j)
  hint forall i in 0..len(f) :: {f[i].PerObjectQuery} kntk(f[i].PerObjectQuery.Where, d, st(w, j), st(w, j-1))
  hint forall i in 0..len(f) :: {f[i].PerObjectQuery} kntk(f[i].PerObjectQuery.Where, d, st(w, j-1), j)
  hint w[j].Opcode == SoqlConditionOpcode_And ==> Gcompose(d, st(w, j), st(w, j-1), j, s) && tksplit(d, st(w, j), st(w, j-1), j)
  ensures allt(G(d, st(w, j), j+1, s))
  ensures conj(G(d, st(w, j), j+1, s)) && allSay(w, f, j) <==> conj(s) && truth(top(R(w, idarr, st(w, j), j+1)))
  ensures slen(G(d, st(w, j), j+1, s)) <= (tk(d, st(w, j), j+1) ? max(slen(s), 1) : slen(s) + 1)
  decreases j
  ih w, d, f, st(w, j-1)-1, s
  ih w, d, f, j-1, G(d, st(w, j), st(w, j-1), s)

// the truth value a run leaves, nothing left being true
fn val(s Stk) bool = isPush(s) ==> truth(top(s))

func postprocess.makePostProcessWhereClause
  props C05
  requires q != nil
  requires len(q.Where) > 0 ==> st(q.Where, len(q.Where)-1) == 0 && isTree(q.Where) && isTruth(top(R(q.Where, idarr, 0, len(q.Where))))
  requires forall i in 0..len(q.From) :: {q.From[i].PerObjectQuery} q.From[i].PerObjectQuery != nil && allocated(q.From[i].PerObjectQuery.Where) && isObjCond(q.Where, q.From[i].PerObjectQuery.Where)
  modifies q.PostProcessWhere
  ensures result == nil
  ensures len(q.PostProcessWhere) == len(q.Where) && allocated(q.PostProcessWhere)
  ensures len(q.PostProcessWhere) > 0 ==> isfresh(q.PostProcessWhere)
  ensures forall k in 0..len(q.Where) :: {q.PostProcessWhere[k].Opcode} q.PostProcessWhere[k].Opcode == SoqlConditionOpcode_Noop || q.PostProcessWhere[k].Opcode == old(q.Where[k].Opcode)
  ensures forall k in 0..len(q.Where) :: {q.PostProcessWhere[k].Value} q.PostProcessWhere[k].Value == old(q.Where[k].Value)
  ensures R(q.PostProcessWhere, idarr, 0, len(q.Where)) == Nil || (sng(R(q.PostProcessWhere, idarr, 0, len(q.Where))) && isTruth(top(R(q.PostProcessWhere, idarr, 0, len(q.Where)))))
  ensures whole: val(R(q.PostProcessWhere, idarr, 0, len(q.Where))) && (forall i in 0..len(q.From) :: {old(q.From[i].PerObjectQuery)} val(R(old(q.From[i].PerObjectQuery.Where), idarr, 0, len(q.Where)))) <==> val(R(old(q.Where), idarr, 0, len(q.Where)))
  ensures now: val(R(q.PostProcessWhere, idarr, 0, len(q.PostProcessWhere))) && (forall i in 0..len(q.From) :: {q.From[i].PerObjectQuery} val(R(q.From[i].PerObjectQuery.Where, idarr, 0, len(q.From[i].PerObjectQuery.Where)))) <==> val(R(q.Where, idarr, 0, len(q.Where))) using fin ppl eqp eqw sam
  ensures ppl: len(q.PostProcessWhere) == len(q.Where)
  hint forall i in 0..len(q.From) :: {old(q.From[i].PerObjectQuery)} len(q.Where) > 0 ==> objCond(old(q.Where), old(q.From[i].PerObjectQuery.Where), len(q.Where)-1)
  hint forall i in 0..len(q.From) :: {old(q.From[i].PerObjectQuery)} Rnoop(old(q.From[i].PerObjectQuery.Where), idarr, 0, len(q.Where))
  hint exo: forall i in 0..len(q.From) :: {q.From[i].PerObjectQuery} Rext(old(q.From[i].PerObjectQuery.Where), q.From[i].PerObjectQuery.Where, idarr, idarr, 0, len(q.Where))
  hint exq: Rext(old(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  hint fin: assert(val(R(q.PostProcessWhere, idarr, 0, len(q.Where))) && (forall i in 0..len(q.From) :: {old(q.From[i].PerObjectQuery)} val(R(old(q.From[i].PerObjectQuery.Where), idarr, 0, len(q.Where)))) <==> val(R(old(q.Where), idarr, 0, len(q.Where))))
  hint sam: assert(q.Where == old(q.Where) && q.From == old(q.From))
  hint eqw: assert(R(q.Where, idarr, 0, len(q.Where)) == R(old(q.Where), idarr, 0, len(q.Where)))
  hint eqp: assert(forall i in 0..len(q.From) :: {q.From[i].PerObjectQuery}{old(q.From[i].PerObjectQuery)} q.From[i].PerObjectQuery == old(q.From[i].PerObjectQuery) && len(q.From[i].PerObjectQuery.Where) == len(q.Where) && R(q.From[i].PerObjectQuery.Where, idarr, 0, len(q.Where)) == R(old(q.From[i].PerObjectQuery.Where), idarr, 0, len(q.Where)))
  loop 1
    decreases len(q.From) - i
    invariant i == 0 || i <= old(len(q.From))
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop || postProcessWhere[k].Opcode == old(q.Where[k].Opcode)
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Value} postProcessWhere[k].Value == old(q.Where[k].Value)
    invariant forall o in 0..i, k in 0..len(q.Where) :: {old(q.From[o].PerObjectQuery), postProcessWhere[k].Opcode} ret(old(q.From[o].PerObjectQuery.Where[k].Opcode)) ==> postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop ==> (exists o in 0..i :: {old(q.From[o].PerObjectQuery)} ret(old(q.From[o].PerObjectQuery.Where[k].Opcode)))
  loop 2
    decreases len(q.From[i].PerObjectQuery.Where) - j
    modifies elems(postProcessWhere)
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop || postProcessWhere[k].Opcode == old(q.Where[k].Opcode)
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Value} postProcessWhere[k].Value == old(q.Where[k].Value)
    invariant forall k in 0..j :: {postProcessWhere[k].Opcode} ret(old(q.From[i].PerObjectQuery.Where[k].Opcode)) ==> postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in 0..j :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop ==> pre(postProcessWhere[k].Opcode) == SoqlConditionOpcode_Noop || ret(old(q.From[i].PerObjectQuery.Where[k].Opcode))
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Opcode} pre(postProcessWhere[k].Opcode) == SoqlConditionOpcode_Noop ==> postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop
    invariant forall k in j..len(q.Where) :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == pre(postProcessWhere[k].Opcode)
  loop 3
    invariant i == 0 || i <= old(len(q.Where))
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == SoqlConditionOpcode_Noop || postProcessWhere[k].Opcode == old(q.Where[k].Opcode)
    invariant forall k in 0..len(q.Where) :: {postProcessWhere[k].Value} postProcessWhere[k].Value == old(q.Where[k].Value)
    invariant forall k in i..len(q.Where) :: {postProcessWhere[k].Opcode} postProcessWhere[k].Opcode == pre(postProcessWhere[k].Opcode)
    invariant isRest(old(q.Where), pre(postProcessWhere), old(q.From))
    invariant allt(G(pre(postProcessWhere), 0, len(q.Where), Nil))
    invariant i < len(q.Where) ==> G(pre(postProcessWhere), 0, i+1, Nil) != Bad
    invariant whole: len(q.Where) > 0 ==> (conj(G(pre(postProcessWhere), 0, len(q.Where), Nil)) && allSay(old(q.Where), old(q.From), len(q.Where)-1) <==> truth(top(R(old(q.Where), idarr, 0, len(q.Where)))))
    invariant run: R(postProcessWhere, idarr, 0, i) == G(pre(postProcessWhere), 0, i, Nil)
    invariant top: 0 <= sp && sp == slen(G(pre(postProcessWhere), 0, i, Nil))
    hint assert(len(q.Where) > 0 ==> isTree(old(q.Where)))
    hint assert(len(q.Where) > 0 ==> (forall i in 0..len(q.From) :: {old(q.From[i].PerObjectQuery)} isObjCond(old(q.Where), old(q.From[i].PerObjectQuery.Where))))
    hint assert(isRest(old(q.Where), pre(postProcessWhere), old(q.From)))
    hint assert(len(q.Where) > 0 ==> isTruth(top(R(old(q.Where), idarr, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1))))
    hint len(q.Where) > 0 ==> restTree(old(q.Where), pre(postProcessWhere), old(q.From), len(q.Where)-1, Nil)
    hint Gbad(pre(postProcessWhere), 0, i+1, len(q.Where), Nil)
    hint Rext(head(postProcessWhere), postProcessWhere, idarr, idarr, 0, head(i))
    hint assert(allt(G(pre(postProcessWhere), 0, len(q.Where), Nil)))
    hint assert(G(pre(postProcessWhere), 0, len(q.Where), Nil) != Bad)
    hint assert(R(postProcessWhere, idarr, 0, head(i)) == G(pre(postProcessWhere), 0, head(i), Nil))
    hint assert(i > head(i) ==> G(pre(postProcessWhere), 0, i, Nil) == gstep(pre(postProcessWhere[head(i)].Opcode), head(i), G(pre(postProcessWhere), 0, head(i), Nil)))
    hint assert(i > head(i) ==> R(postProcessWhere, idarr, 0, i) == step(postProcessWhere[head(i)].Opcode, head(i), R(postProcessWhere, idarr, 0, head(i))))
    hint assert(i > head(i) ==> (postProcessWhere[head(i)].Opcode == pre(postProcessWhere[head(i)].Opcode) || (postProcessWhere[head(i)].Opcode == SoqlConditionOpcode_Noop && pre(postProcessWhere[head(i)].Opcode) == SoqlConditionOpcode_And && head(sp) < 2)))

// the same for conditions that have the same opcodes
lemma stext(c []SoqlCondition S, d []SoqlCondition T, j int)
  requires forall i in 0..j+1 :: {c[i].Opcode}{d[i].Opcode} c[i].Opcode == d[i].Opcode
  hint stle(c, j-1)
  ensures st(c, j) == st(d, j)
  decreases j
  ih c, d, j-1
  ih c, d, st(c, j-1)-1

lemma treeExt(w []SoqlCondition S, v []SoqlCondition T)
  requires len(w) == len(v) && (forall i in 0..len(w) :: {w[i].Opcode}{v[i].Opcode} w[i].Opcode == v[i].Opcode)
  hint forall k in 0..len(w) :: {st(v, k)} stext(w, v, k)
  hint forall k in 0..len(w) :: {st(v, k)} Rext(w, v, idarr, idarr, st(w, k), k+1)
  ensures isTree(w) ==> isTree(v)

lemma objCondW(w []SoqlCondition S, v []SoqlCondition T, p []SoqlCondition U)
  requires len(w) == len(v) && (forall i in 0..len(w) :: {w[i].Opcode}{v[i].Opcode} w[i].Opcode == v[i].Opcode)
  hint forall k in 0..len(w) :: {p[k].Opcode} stext(w, v, k)
  hint forall k in 0..len(w) :: {p[k].Opcode} stext(w, v, k-1)
  ensures isObjCond(w, p) ==> isObjCond(v, p)

lemma objCondP(w []SoqlCondition S, p []SoqlCondition T, d []SoqlCondition U)
  requires isTree(w)
  requires len(p) == len(d) && (forall i in 0..len(p) :: {p[i].Opcode}{d[i].Opcode} p[i].Opcode == d[i].Opcode)
  hint forall k in 0..len(w) :: {d[k].Opcode} w[k].Opcode == SoqlConditionOpcode_And ==> sides(w, k)
  hint forall k in 0..len(w) :: {d[k].Opcode} w[k].Opcode == SoqlConditionOpcode_And ==> knext(p, d, st(w, k), st(w, k-1))
  hint forall k in 0..len(w) :: {d[k].Opcode} w[k].Opcode == SoqlConditionOpcode_And ==> knext(p, d, st(w, k-1), k)
  ensures isObjCond(w, p) ==> isObjCond(w, d)
