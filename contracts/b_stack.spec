// The meaning of a postfix condition: a stack machine over truth values.
//
// An operand is named by a number (its position in the list the operands were
// first written in); the truth value of a comparison of two operands is an
// arbitrary function of the operator and the operands, of which only this is
// assumed: an operator and its complement have opposite values. So whatever is
// proved holds for every assignment of truth values to the comparisons.

smt
(declare-datatypes ((Tv 0)) (((Opnd (opnd Int)) (Truth (truth Bool)))))
(declare-datatypes ((Stk 0)) (((Nil) (Push (top Tv) (rest Stk)) (Bad))))
; complement of an operator; other opcodes are their own complement
(define-fun negop ((o Int)) Int (ite (= o @SoqlConditionOpcode_And@) @SoqlConditionOpcode_Or@ (ite (= o @SoqlConditionOpcode_Or@) @SoqlConditionOpcode_And@ (ite (= o @SoqlConditionOpcode_Eq@) @SoqlConditionOpcode_NotEq@ (ite (= o @SoqlConditionOpcode_NotEq@) @SoqlConditionOpcode_Eq@ (ite (= o @SoqlConditionOpcode_Lt@) @SoqlConditionOpcode_Ge@ (ite (= o @SoqlConditionOpcode_Ge@) @SoqlConditionOpcode_Lt@ (ite (= o @SoqlConditionOpcode_Le@) @SoqlConditionOpcode_Gt@ (ite (= o @SoqlConditionOpcode_Gt@) @SoqlConditionOpcode_Le@ (ite (= o @SoqlConditionOpcode_Like@) @SoqlConditionOpcode_NotLike@ (ite (= o @SoqlConditionOpcode_NotLike@) @SoqlConditionOpcode_Like@ (ite (= o @SoqlConditionOpcode_In@) @SoqlConditionOpcode_NotIn@ (ite (= o @SoqlConditionOpcode_NotIn@) @SoqlConditionOpcode_In@ (ite (= o @SoqlConditionOpcode_Includes@) @SoqlConditionOpcode_Excludes@ (ite (= o @SoqlConditionOpcode_Excludes@) @SoqlConditionOpcode_Includes@ o)))))))))))))))
(define-fun iscmp ((o Int)) Bool (or (= o @SoqlConditionOpcode_Eq@) (= o @SoqlConditionOpcode_NotEq@) (= o @SoqlConditionOpcode_Lt@) (= o @SoqlConditionOpcode_Le@) (= o @SoqlConditionOpcode_Gt@) (= o @SoqlConditionOpcode_Ge@) (= o @SoqlConditionOpcode_Like@) (= o @SoqlConditionOpcode_NotLike@) (= o @SoqlConditionOpcode_In@) (= o @SoqlConditionOpcode_NotIn@) (= o @SoqlConditionOpcode_Includes@) (= o @SoqlConditionOpcode_Excludes@)))
(declare-fun basecmp (Int Int Int) Bool)
(define-fun cmpval ((o Int) (a Int) (b Int)) Bool (ite (= o @SoqlConditionOpcode_NotEq@) (not (basecmp @SoqlConditionOpcode_Eq@ a b)) (ite (= o @SoqlConditionOpcode_Ge@) (not (basecmp @SoqlConditionOpcode_Lt@ a b)) (ite (= o @SoqlConditionOpcode_Gt@) (not (basecmp @SoqlConditionOpcode_Le@ a b)) (ite (= o @SoqlConditionOpcode_NotLike@) (not (basecmp @SoqlConditionOpcode_Like@ a b)) (ite (= o @SoqlConditionOpcode_NotIn@) (not (basecmp @SoqlConditionOpcode_In@ a b)) (ite (= o @SoqlConditionOpcode_Excludes@) (not (basecmp @SoqlConditionOpcode_Includes@ a b)) (basecmp o a b))))))))
(declare-fun step (Int Int Stk) Stk)
(assert (forall ((o Int) (i Int) (s Stk)) (! (= (step o i s)
  (ite (= s Bad) Bad
  (ite (= o @SoqlConditionOpcode_Noop@) s
  (ite (or (= o @SoqlConditionOpcode_Unknown@) (= o @SoqlConditionOpcode_FieldInfo@)) (Push (Opnd i) s)
  (ite (= o @SoqlConditionOpcode_Not@) (ite (and ((_ is Push) s) ((_ is Truth) (top s))) (Push (Truth (not (truth (top s)))) (rest s)) Bad)
  (ite (not (and ((_ is Push) s) ((_ is Push) (rest s)))) Bad
  (ite (and (= o @SoqlConditionOpcode_And@) ((_ is Truth) (top s)) ((_ is Truth) (top (rest s))))
       (Push (Truth (and (truth (top (rest s))) (truth (top s)))) (rest (rest s)))
  (ite (and (= o @SoqlConditionOpcode_Or@) ((_ is Truth) (top s)) ((_ is Truth) (top (rest s))))
       (Push (Truth (or (truth (top (rest s))) (truth (top s)))) (rest (rest s)))
  (ite (and (iscmp o) ((_ is Opnd) (top s)) ((_ is Opnd) (top (rest s))))
       (Push (Truth (cmpval o (opnd (top (rest s))) (opnd (top s)))) (rest (rest s)))
       Bad)))))))))
  :pattern ((step o i s)))))
(declare-fun cat (Stk Stk) Stk)
(assert (forall ((t Stk)) (! (= (cat Nil t) t) :pattern ((cat Nil t)))))
(assert (forall ((t Stk)) (! (= (cat Bad t) Bad) :pattern ((cat Bad t)))))
(assert (forall ((v Tv) (s Stk) (t Stk)) (! (= (cat (Push v s) t) (Push v (cat s t))) :pattern ((cat (Push v s) t)))))
(declare-fun negstk (Stk) Stk)
(assert (= (negstk Nil) Nil))
(assert (= (negstk Bad) Bad))
(assert (forall ((i Int) (s Stk)) (! (= (negstk (Push (Opnd i) s)) (Push (Opnd i) (negstk s))) :pattern ((negstk (Push (Opnd i) s))))))
(assert (forall ((b Bool) (s Stk)) (! (= (negstk (Push (Truth b) s)) (Push (Truth (not b)) (negstk s))) :pattern ((negstk (Push (Truth b) s))))))
; the stack without the names and the truth values
(declare-fun shape (Stk) Stk)
(assert (= (shape Nil) Nil))
(assert (= (shape Bad) Bad))
(assert (forall ((v Tv) (s Stk)) (! (= (shape (Push v s)) (Push (ite ((_ is Truth) v) (Truth true) (Opnd 0)) (shape s))) :pattern ((shape (Push v s))))))
(assert (forall ((s Stk)) (! (and (=> ((_ is Push) s) (= (shape s) (Push (ite ((_ is Truth) (top s)) (Truth true) (Opnd 0)) (shape (rest s)))))) :pattern ((shape s) (rest s)))))
(assert (forall ((s Stk)) (! (and (=> ((_ is Nil) (shape s)) ((_ is Nil) s)) (=> ((_ is Bad) (shape s)) ((_ is Bad) s))) :pattern ((shape s)))))
(declare-const idarr (Array Int Int))
(assert (forall ((i Int)) (! (= (select idarr i) i) :pattern ((select idarr i)))))
end

sort Tv Stk
ufun Nil() Stk
ufun Bad() Stk
ufun Push(v Tv, s Stk) Stk
ufun Opnd(i int) Tv
ufun Truth(b bool) Tv
ufun top(s Stk) Tv
ufun rest(s Stk) Stk
ufun opnd(v Tv) int
ufun truth(v Tv) bool
ufun isPush(s Stk) bool = (_ is Push)
ufun isNil(s Stk) bool = (_ is Nil)
ufun isOpnd(v Tv) bool = (_ is Opnd)
ufun isTruth(v Tv) bool = (_ is Truth)
ufun cmpval(o int, a int, b int) bool
ufun cat(s Stk, t Stk) Stk
ufun negstk(s Stk) Stk
ufun shape(s Stk) Stk
ufun idarr() IntArray

ufun negop(o int) int
fn isOperandOp(o int) bool = o == SoqlConditionOpcode_Unknown || o == SoqlConditionOpcode_FieldInfo

ufun iscmp(o int) bool

ufun step(o int, id int, s Stk) Stk

// the stack after running c[a..b) from the empty stack, operand i being named sg[i]
fn R(c []SoqlCondition, sg IntArray, a int, b int) Stk =
  b <= a ? Nil : step(c[b-1].Opcode, sg[b-1], R(c, sg, a, b-1))

lemma Rext(c []SoqlCondition S, d []SoqlCondition T, sc IntArray, sd IntArray, a int, b int)
  requires forall i in a..b :: c[i].Opcode == d[i].Opcode && (isOperandOp(c[i].Opcode) ==> sc[i] == sd[i])
  ensures R(c, sc, a, b) == R(d, sd, a, b)
  decreases b - a
  ih c, d, sc, sd, a, b-1

lemma Rcompose(c []SoqlCondition S, sg IntArray, a int, m int, b int)
  requires a <= m && m <= b && R(c, sg, m, b) != Bad && R(c, sg, a, m) != Bad
  ensures R(c, sg, a, b) == cat(R(c, sg, m, b), R(c, sg, a, m))
  decreases b - m
  ih c, sg, a, m, b-1

lemma Rbad(c []SoqlCondition S, sg IntArray, a int, m int, b int)
  requires m <= b && R(c, sg, a, b) != Bad
  ensures R(c, sg, a, m) != Bad
  decreases b - m
  ih c, sg, a, m, b-1

lemma Rnoop(c []SoqlCondition S, sg IntArray, a int, b int)
  requires forall i in a..b :: c[i].Opcode == SoqlConditionOpcode_Noop
  ensures R(c, sg, a, b) == Nil
  decreases b - a
  ih c, sg, a, b-1

// De Morgan: complementing every operator of a range without not complements every truth value it leaves
lemma Rneg(c []SoqlCondition S, d []SoqlCondition T, sg IntArray, a int, b int)
  requires forall i in a..b :: c[i].Opcode != SoqlConditionOpcode_Not && d[i].Opcode == negop(c[i].Opcode)
  ensures R(d, sg, a, b) == negstk(R(c, sg, a, b))
  decreases b - a
  ih c, d, sg, a, b-1

// d consists of the entries of c that are not Noop, in order: entry i of d is entry pi[i] of c, inv is the inverse of pi
fn isCompact(c []SoqlCondition S, d []SoqlCondition T, pi IntArray, inv IntArray) bool =
  (forall i in 0..len(d) :: 0 <= pi[i] && pi[i] < len(c) && inv[pi[i]] == i && d[i].Opcode == c[pi[i]].Opcode && d[i].Opcode != SoqlConditionOpcode_Noop) &&
  (forall i in 0..len(d), j in 0..len(d) :: {pi[i], pi[j]} i < j ==> pi[i] < pi[j]) &&
  (forall p in 0..len(c) :: c[p].Opcode != SoqlConditionOpcode_Noop ==> 0 <= inv[p] && inv[p] < len(d) && pi[inv[p]] == p)

lemma Rcompact(c []SoqlCondition S, d []SoqlCondition T, pi IntArray, inv IntArray, a int, k int)
  requires isCompact(c, d, pi, inv)
  requires 0 <= a && a <= len(c) && 0 <= k && k <= len(d)
  requires (forall i in 0..k :: {pi[i]} pi[i] < a) && (forall i in k..len(d) :: {pi[i]} pi[i] >= a)
  ensures R(d, pi, 0, k) == R(c, idarr, 0, a)
  decreases a
  hint pi[k-1] == inv[a-1] && pi[inv[a-1]] == pi[k] && c[a-1].Opcode == d[k-1].Opcode
  ih c, d, pi, inv, a-1, k
  ih c, d, pi, inv, a-1, k-1
