// The queries of the objects of a query.

// position of the entries of the condition of an object in the condition of the query
ghostfield SoqlQuery.wperm IntArray

func postprocess.normalizeQueryContext.buildPerObjectInfo
  props C05
  requires ctx != nil && q != nil && valid(q) && allocated(q.From) && allocated(q.Where) && allocated(q.OrderBy) && allocated(q.Fields) && len(q.From) >= 1 && ctx.colIndexMap != nil
  requires wf: wfCond(q.Where)
  requires fnames: forall i in 0..len(q.Fields) :: q.Fields[i].Type == SoqlFieldInfo_Field || q.Fields[i].Type == SoqlFieldInfo_FieldSet ==> len(q.Fields[i].Name) >= 1
  requires onames: forall i in 0..len(q.OrderBy) :: q.OrderBy[i].Field.Type == SoqlFieldInfo_Field ==> len(q.OrderBy[i].Field.Name) >= 1
  requires wnames: forall i in 0..len(q.Where) :: q.Where[i].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[i].Value.Type == SoqlFieldInfo_Field ==> len(q.Where[i].Value.Name) >= 1
  modifies elems(q.From), content(ctx.colIndexMap), heap(SoqlFieldInfo), q.IsCorelated, heap(SoqlQuery.Fields), q.PostProcessWhere, heap(SoqlQuery.wperm)
  set q.wperm := sortperm
  stable postprocess.makePostProcessWhereClause forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} Rext(old(q.From[k].PerObjectQuery.Where), q.From[k].PerObjectQuery.Where, idarr, idarr, 0, len(q.From[k].PerObjectQuery.Where))
  stable postprocess.compactConditions forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} Rext(old(q.From[k].PerObjectQuery.Where), q.From[k].PerObjectQuery.Where, old(q.From[k].PerObjectQuery.wperm), q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where))
  loop 1
    decreases len(q.From) - i
    invariant fn1: forall j in 0..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].Type == old(q.Fields[j].Type) && q.Fields[j].Name == old(q.Fields[j].Name)
    invariant on1: forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j])} q.OrderBy[j].Field.Type == old(q.OrderBy[j].Field.Type) && q.OrderBy[j].Field.Name == old(q.OrderBy[j].Field.Name)
    invariant wn1: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Value.Type == old(q.Where[j].Value.Type) && q.Where[j].Value.Name == old(q.Where[j].Value.Name)
    invariant fre1: forall k in 0..i :: {q.From[k].PerObjectQuery} isfresh(q.From[k].PerObjectQuery) && allocated(q.From[k].PerObjectQuery) && q.From[k].PerObjectQuery != nil
    invariant dis1: forall k in 0..i, m in 0..i :: {q.From[k].PerObjectQuery, q.From[m].PerObjectQuery} k != m ==> q.From[k].PerObjectQuery != q.From[m].PerObjectQuery
    invariant nil1: forall k in 0..i :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.Where) && len(q.From[k].PerObjectQuery.Where) == 0
    invariant one1: forall k in 0..i :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.From) && len(q.From[k].PerObjectQuery.From) == 1 && q.From[k].PerObjectQuery.From[0].Name == q.From[k].Name
  loop 2
    modifies elems(perObjQuery.Fields).ColIndex, content(ctx.colIndexMap)
  loop 3
    decreases len(q.From) - i
    invariant fre3: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} isfresh(q.From[k].PerObjectQuery) && allocated(q.From[k].PerObjectQuery) && q.From[k].PerObjectQuery != nil
    invariant dis3: forall k in 0..len(q.From), m in 0..len(q.From) :: {q.From[k].PerObjectQuery, q.From[m].PerObjectQuery} k != m ==> q.From[k].PerObjectQuery != q.From[m].PerObjectQuery
    invariant nil3: forall k in i..len(q.From) :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.Where) && len(q.From[k].PerObjectQuery.Where) == 0
    invariant len3: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.Where) == len(q.Where)
    invariant one3: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.From) && len(q.From[k].PerObjectQuery.From) == 1 && q.From[k].PerObjectQuery.From[0].Name == q.From[k].Name
    invariant frs3: forall k in 0..i :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.Where) && (len(q.Where) > 0 ==> isfresh(q.From[k].PerObjectQuery.Where))
    invariant arr3: forall k in 0..i, m in 0..i :: {q.From[k].PerObjectQuery, q.From[m].PerObjectQuery} k != m && len(q.Where) > 0 ==> arr(q.From[k].PerObjectQuery.Where) != arr(q.From[m].PerObjectQuery.Where)
    invariant tree3: i > 0 && len(q.Where) > 0 ==> isTree(old(q.Where)) && st(old(q.Where), len(q.Where)-1) == 0
    invariant obj3: len(q.Where) > 0 ==> (forall k in 0..i :: {q.From[k].PerObjectQuery} isObjCond(old(q.Where), q.From[k].PerObjectQuery.Where))
    hint srcR: Rext(old(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
    hint srcT: treeExt(old(q.Where), q.Where)
    hint srcS: stext(old(q.Where), q.Where, len(q.Where)-1)
    hint bakT: treeExt(head(q.Where), old(q.Where))
    hint bakS: stext(head(q.Where), old(q.Where), len(q.Where)-1)
    hint okw: i > head(i) && len(q.Where) > 0 ==> objCondW(head(q.Where), old(q.Where), q.From[head(i)].PerObjectQuery.Where)
    hint okp: forall k in 0..head(i) :: {q.From[k].PerObjectQuery} i > head(i) && len(q.Where) > 0 ==> objCondP(old(q.Where), head(q.From[k].PerObjectQuery.Where), q.From[k].PerObjectQuery.Where)
    hint okq: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 ==> objCondW(old(q.Where), q.Where, q.From[k].PerObjectQuery.Where)
    hint newT: assert(i > head(i) && len(q.Where) > 0 ==> isTree(head(q.Where)) && st(head(q.Where), len(q.Where)-1) == 0)
    hint newC: assert(i > head(i) && len(q.Where) > 0 ==> isObjCond(old(q.Where), q.From[head(i)].PerObjectQuery.Where))
    hint oldC: assert(i > head(i) && len(q.Where) > 0 ==> (forall k in 0..head(i) :: {q.From[k].PerObjectQuery} isObjCond(old(q.Where), q.From[k].PerObjectQuery.Where)))
  loop 4
    decreases len(q.From) - i
    invariant fre4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} isfresh(q.From[k].PerObjectQuery) && q.From[k].PerObjectQuery != nil
    invariant dis4: forall k in 0..len(q.From), m in 0..len(q.From) :: {q.From[k].PerObjectQuery, q.From[m].PerObjectQuery} k != m ==> q.From[k].PerObjectQuery != q.From[m].PerObjectQuery
    invariant frs4: forall k in i..len(q.From) :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.Where) > 0 ==> isfresh(q.From[k].PerObjectQuery.Where)
    invariant alo4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.Where) && allocated(q.From[k].PerObjectQuery)
    invariant pal4: allocated(q.PostProcessWhere)
    set q.From[head(i)].PerObjectQuery.wperm := sortperm

// The filters: those of the objects and the one after the join.
aspect postprocess.normalizeQueryContext.buildPerObjectInfo#filters
  props C04 C05
  ensures src: forall k in 0..len(q.From), j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} result == nil ==> 0 <= q.From[k].PerObjectQuery.wperm[j] && q.From[k].PerObjectQuery.wperm[j] < len(q.Where) && q.From[k].PerObjectQuery.Where[j].Opcode == q.Where[q.From[k].PerObjectQuery.wperm[j]].Opcode && q.From[k].PerObjectQuery.Where[j].Value == q.Where[q.From[k].PerObjectQuery.wperm[j]].Value
  ensures own: forall k in 0..len(q.From), j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} result == nil && q.From[k].PerObjectQuery.Where[j].Opcode == SoqlConditionOpcode_FieldInfo ==> keeps(q.From[k].PerObjectQuery.Where[j].Value.Type, q.From[k].Name, q.From[k].PerObjectQuery.Where[j].Value.Name) using perm4 alo4 ppq4 not3 val3 own3 src4 nam4 dis4 fre4 len3b frames
  ensures ops: forall k in 0..len(q.From), j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} result == nil ==> q.From[k].PerObjectQuery.Where[j].Opcode != SoqlConditionOpcode_Noop && q.From[k].PerObjectQuery.Where[j].Opcode != SoqlConditionOpcode_Unknown && q.From[k].PerObjectQuery.Where[j].Opcode != SoqlConditionOpcode_Not using perm4 alo4 ppq4 not3 val3 own3 src4 nam4 dis4 fre4 len3b frames
  ensures ord: forall k in 0..len(q.From), j in 0..len(q.From[k].PerObjectQuery.Where), m in 0..len(q.From[k].PerObjectQuery.Where) :: {q.From[k].PerObjectQuery.wperm[j], q.From[k].PerObjectQuery.wperm[m]} result == nil && j < m ==> q.From[k].PerObjectQuery.wperm[j] < q.From[k].PerObjectQuery.wperm[m]
  loop 1
    import *
  loop 2
    import *
  loop 3
    import *
    invariant val3: forall k in 0..i, j in 0..len(q.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} q.From[k].PerObjectQuery.Where[j].Value == q.Where[j].Value
    invariant own3: forall k in 0..i, j in 0..len(q.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} q.From[k].PerObjectQuery.Where[j].Opcode == SoqlConditionOpcode_FieldInfo ==> keeps(q.From[k].PerObjectQuery.Where[j].Value.Type, q.From[k].Name, q.From[k].PerObjectQuery.Where[j].Value.Name)
    invariant not3: forall k in 0..i, j in 0..len(q.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} q.From[k].PerObjectQuery.Where[j].Opcode == SoqlConditionOpcode_Noop || q.From[k].PerObjectQuery.Where[j].Opcode == q.Where[j].Opcode && q.Where[j].Opcode != SoqlConditionOpcode_Unknown && q.Where[j].Opcode != SoqlConditionOpcode_Not
    invariant len3b: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.Where) == len(q.Where)
  loop 4
    import *
    invariant nam4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} q.From[k].Name == pre(q.From[k].Name)
    invariant src4: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j] == pre(q.Where[j])
    invariant arr4: forall k in i..len(q.From), m in 0..len(q.From) :: {q.From[k].PerObjectQuery, q.From[m].PerObjectQuery} k != m && len(q.From[k].PerObjectQuery.Where) > 0 && len(q.From[m].PerObjectQuery.Where) > 0 ==> arr(q.From[k].PerObjectQuery.Where) != arr(q.From[m].PerObjectQuery.Where)
    invariant hdr4: forall k in i..len(q.From) :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery.Where == pre(q.From[k].PerObjectQuery.Where)
    invariant same4: forall k in i..len(q.From), j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} q.From[k].PerObjectQuery.Where[j] == pre(q.From[k].PerObjectQuery.Where[j])
    invariant perm4: forall k in 0..i, j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} 0 <= q.From[k].PerObjectQuery.wperm[j] && q.From[k].PerObjectQuery.wperm[j] < pre(len(q.From[k].PerObjectQuery.Where)) && q.From[k].PerObjectQuery.Where[j] == pre(q.From[k].PerObjectQuery.Where)[q.From[k].PerObjectQuery.wperm[j]] && q.From[k].PerObjectQuery.Where[j].Opcode != SoqlConditionOpcode_Noop
    invariant inc4: forall k in 0..i, j in 0..len(q.From[k].PerObjectQuery.Where), m in 0..len(q.From[k].PerObjectQuery.Where) :: {q.From[k].PerObjectQuery.wperm[j], q.From[k].PerObjectQuery.wperm[m]} j < m ==> q.From[k].PerObjectQuery.wperm[j] < q.From[k].PerObjectQuery.wperm[m] using inc4 kpp compactConditions
    invariant ppq4: len(q.PostProcessWhere) > 0 ==> arr(q.PostProcessWhere) != arr(q.Where) && (forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.Where) > 0 ==> arr(q.PostProcessWhere) != arr(q.From[k].PerObjectQuery.Where))
    hint kpp: assert(forall k in 0..head(i) :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery == head(q.From[k].PerObjectQuery) && q.From[k].PerObjectQuery.wperm == head(q.From[k].PerObjectQuery.wperm) && q.From[k].PerObjectQuery.Where == head(q.From[k].PerObjectQuery.Where)) using dis4 fre4 alo4 frames
    hint kper: assert(forall k in 0..head(i), j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} q.From[k].PerObjectQuery.Where[j] == head(q.From[k].PerObjectQuery.Where[j])) using dis4 fre4 alo4 arr4 kpp frames
    hint new1: assert(i > head(i) && len(q.From[head(i)].PerObjectQuery.Where) > 0 ==> len(q.From[head(i)].PerObjectQuery.Where) <= pre(len(q.From[head(i)].PerObjectQuery.Where)))
    hint new2: assert(i > head(i) ==> (forall j in 0..len(q.From[head(i)].PerObjectQuery.Where) :: {addr(q.From[head(i)].PerObjectQuery.Where[j])} 0 <= q.From[head(i)].PerObjectQuery.wperm[j] && q.From[head(i)].PerObjectQuery.wperm[j] < pre(len(q.From[head(i)].PerObjectQuery.Where)) && q.From[head(i)].PerObjectQuery.Where[j] == pre(q.From[head(i)].PerObjectQuery.Where)[q.From[head(i)].PerObjectQuery.wperm[j]]))

// Their meaning: together they are the condition of the query.
aspect postprocess.normalizeQueryContext.buildPerObjectInfo#meaning
  props C04 C05
  ensures whole: result == nil ==> (val(R(q.PostProcessWhere, q.wperm, 0, len(q.PostProcessWhere))) && (forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} val(R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where)))) <==> val(R(old(q.Where), idarr, 0, len(q.Where))))
  ensures each: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} result == nil ==> R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where)) == Nil || sng(R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where))) && isTruth(top(R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where))))
  ensures post: result == nil ==> R(q.PostProcessWhere, q.wperm, 0, len(q.PostProcessWhere)) == Nil || sng(R(q.PostProcessWhere, q.wperm, 0, len(q.PostProcessWhere))) && isTruth(top(R(q.PostProcessWhere, q.wperm, 0, len(q.PostProcessWhere))))
  ensures same: forall j in 0..len(q.Where) :: {q.Where[j].Opcode} q.Where[j].Opcode == old(q.Where[j].Opcode)
  //hint fin: assert(forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} result == nil ==> R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where)) == R(old(q.Where), idarr, 0, 0) || true)
  loop 1
    import *
  loop 2
    import *
  loop 3
    import * +tree3 +obj3 +len3 +frs3
    invariant nice3: forall k in 0..i :: {q.From[k].PerObjectQuery} R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where)) == Nil || sng(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where))) && isTruth(top(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where)))) using x4 x5 x6 len3
    hint trw: assert(len(q.Where) > 0 ==> isTruth(top(R(old(q.Where), idarr, 0, len(q.Where)))))
    hint obc: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 ==> objCond(old(q.Where), q.From[k].PerObjectQuery.Where, len(q.Where)-1)
    hint x1: assert(forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 && !kn(q.From[k].PerObjectQuery.Where, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1) ==> R(q.From[k].PerObjectQuery.Where, idarr, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1) == Nil) using obc obj3 tree3 len3
    hint x2: assert(forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 && kn(q.From[k].PerObjectQuery.Where, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1) ==> sng(R(q.From[k].PerObjectQuery.Where, idarr, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1))) using obc obj3 tree3 len3
    hint x4: assert(forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 && !kn(q.From[k].PerObjectQuery.Where, 0, len(q.Where)) ==> R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.Where)) == Nil) using x1 x2 tree3 len3
    hint x3: assert(forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 && kn(q.From[k].PerObjectQuery.Where, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1) ==> isTruth(top(R(q.From[k].PerObjectQuery.Where, idarr, st(old(q.Where), len(q.Where)-1), len(q.Where)-1+1)))) using obc obj3 tree3 len3 trw
    hint x5: assert(forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 && kn(q.From[k].PerObjectQuery.Where, 0, len(q.Where)) ==> sng(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.Where))) && isTruth(top(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.Where))))) using x2 x3 tree3 len3
    hint x0: forall k in 0..i :: {q.From[k].PerObjectQuery} Rnoop(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where))
    hint x6: assert(len(q.Where) == 0 ==> (forall k in 0..i :: {q.From[k].PerObjectQuery} R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where)) == Nil)) using len3 x0
  loop 4
    import * filters.arr4 filters.hdr4 filters.same4 filters.ppq4
    invariant nice4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} pre(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where))) == Nil || sng(pre(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where)))) && isTruth(top(pre(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where))))) using nice4
    invariant len4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} pre(len(q.From[k].PerObjectQuery.Where)) == len(q.Where)
    invariant whole4: val(pre(R(q.PostProcessWhere, idarr, 0, len(q.PostProcessWhere)))) && (forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} val(pre(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where))))) <==> val(pre(R(q.Where, idarr, 0, len(q.Where)))) using whole4
    invariant pph4: q.PostProcessWhere == pre(q.PostProcessWhere)
    invariant ppw4: forall j in 0..len(q.PostProcessWhere) :: {q.PostProcessWhere[j].Opcode} q.PostProcessWhere[j].Opcode == pre(q.PostProcessWhere[j].Opcode) using ppw4 pph4 ppq4 hdr4 fre4 alo4 pal4 frames compactConditions
    invariant run4: forall k in 0..i :: {q.From[k].PerObjectQuery} R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where)) == pre(R(q.From[k].PerObjectQuery.Where, idarr, 0, len(q.From[k].PerObjectQuery.Where)))
    hint srp4: Rext(old(q.Where), pre(q.Where), idarr, idarr, 0, len(q.Where))
    hint ext4: forall k in 0..head(i) :: {q.From[k].PerObjectQuery} Rext(head(q.From[k].PerObjectQuery.Where), q.From[k].PerObjectQuery.Where, head(q.From[k].PerObjectQuery.wperm), q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where))
    hint pre4: head(i) < len(q.From) ==> Rext(pre(q.From[head(i)].PerObjectQuery.Where), head(q.From[head(i)].PerObjectQuery.Where), idarr, idarr, 0, head(len(q.From[head(i)].PerObjectQuery.Where)))
    hint ppr4: Rext(pre(q.PostProcessWhere), q.PostProcessWhere, idarr, idarr, 0, len(q.PostProcessWhere))
    hint newr: assert(i > head(i) ==> R(q.From[head(i)].PerObjectQuery.Where, q.From[head(i)].PerObjectQuery.wperm, 0, len(q.From[head(i)].PerObjectQuery.Where)) == pre(R(q.From[head(i)].PerObjectQuery.Where, idarr, 0, len(q.From[head(i)].PerObjectQuery.Where))))
    hint oldr: assert(forall k in 0..head(i) :: {q.From[k].PerObjectQuery} R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where)) == head(R(q.From[k].PerObjectQuery.Where, q.From[k].PerObjectQuery.wperm, 0, len(q.From[k].PerObjectQuery.Where))))

// The flags of the joins.
fn speaks(w []SoqlCondition, obj []string) bool = exists j in 0..len(w) :: {w[j].Opcode} w[j].Opcode == SoqlConditionOpcode_FieldInfo && w[j].Value.Type == SoqlFieldInfo_Field && inObj(obj, w[j].Value.Name)
fn some(p []SoqlCondition) bool = exists j in 0..len(p) :: {p[j].Opcode} p[j].Opcode != SoqlConditionOpcode_Noop

aspect postprocess.normalizeQueryContext.buildPerObjectInfo#flags
  props C06
  ensures conds: forall k in 0..len(q.From) :: {addr(q.From[k])} result == nil && len(q.Where) > 0 ==> (q.From[k].HasConditions <==> speaks(old(q.Where), old(q.From[k].Name)))
  ensures nocond: forall k in 0..len(q.From) :: {addr(q.From[k])} result == nil && len(q.Where) == 0 ==> q.From[k].HasConditions == old(q.From[k].HasConditions) && (k != 0 ==> q.From[k].InnerJoin == old(q.From[k].InnerJoin))
  ensures nowher: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} result == nil && len(q.Where) == 0 ==> len(q.From[k].PerObjectQuery.Where) <= 0 using les4 len4 whl4 fre4 frames
  ensures joins: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} result == nil && k != 0 && len(q.Where) > 0 ==> (q.From[k].InnerJoin <==> len(q.From[k].PerObjectQuery.Where) > 0)
  ensures first: result == nil ==> !q.From[0].InnerJoin
  loop 1
    import *
    invariant hc1: forall k in 0..len(q.From) :: {addr(q.From[k])} q.From[k].HasConditions == old(q.From[k].HasConditions) && q.From[k].InnerJoin == old(q.From[k].InnerJoin) && q.From[k].Name == old(q.From[k].Name)
  loop 2
    import *
  loop 3
    import *
    invariant whh3: q.Where == old(q.Where)
    invariant whe3: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Opcode == old(q.Where[j].Opcode) && q.Where[j].Value.Type == old(q.Where[j].Value.Type) && q.Where[j].Value.Name == old(q.Where[j].Value.Name)
    invariant nam3: forall k in 0..len(q.From) :: {addr(q.From[k])} q.From[k].Name == old(q.From[k].Name)
    invariant noc3: forall k in 0..len(q.From) :: {addr(q.From[k])} len(q.Where) == 0 ==> q.From[k].HasConditions == old(q.From[k].HasConditions) && q.From[k].InnerJoin == old(q.From[k].InnerJoin)
    invariant has3: forall k in 0..i :: {addr(q.From[k])} len(q.Where) > 0 ==> (q.From[k].HasConditions <==> speaks(old(q.Where), old(q.From[k].Name)))
    invariant inn3: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.Where) > 0 ==> (q.From[k].InnerJoin <==> some(q.From[k].PerObjectQuery.Where))
  loop 4
    import *
    invariant flg4: forall k in 0..len(q.From) :: {addr(q.From[k])} q.From[k].InnerJoin == pre(q.From[k].InnerJoin) && q.From[k].HasConditions == pre(q.From[k].HasConditions)
    invariant arr4: forall k in i..len(q.From), m in 0..len(q.From) :: {q.From[k].PerObjectQuery, q.From[m].PerObjectQuery} k != m && len(q.From[k].PerObjectQuery.Where) > 0 && len(q.From[m].PerObjectQuery.Where) > 0 ==> arr(q.From[k].PerObjectQuery.Where) != arr(q.From[m].PerObjectQuery.Where)
    invariant hdr4: forall k in i..len(q.From) :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery.Where == pre(q.From[k].PerObjectQuery.Where)
    invariant same4: forall k in i..len(q.From), j in 0..len(q.From[k].PerObjectQuery.Where) :: {addr(q.From[k].PerObjectQuery.Where[j])} q.From[k].PerObjectQuery.Where[j] == pre(q.From[k].PerObjectQuery.Where[j])
    invariant whl4: q.Where == old(q.Where)
    invariant len4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} pre(len(q.From[k].PerObjectQuery.Where)) == len(q.Where)
    invariant les4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.Where) <= pre(len(q.From[k].PerObjectQuery.Where))
    invariant inn4: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.Where) > 0 <==> pre(some(q.From[k].PerObjectQuery.Where))

// What the first object is told, and the orderings of the objects.
aspect postprocess.normalizeQueryContext.buildPerObjectInfo#head
  props C12
  ensures paging: result == nil ==> q.From[0].PerObjectQuery.OffsetAndLimit == old(q.OffsetAndLimit)
  ensures nopaging: forall k in 1..len(q.From) :: {q.From[k].PerObjectQuery} result == nil ==> q.From[k].PerObjectQuery.OffsetAndLimit.Limit == 0 && q.From[k].PerObjectQuery.OffsetAndLimit.Offset == 0 && len(q.From[k].PerObjectQuery.OffsetAndLimit.LimitParamName) == 0 && len(q.From[k].PerObjectQuery.OffsetAndLimit.OffsetParamName) == 0
  ensures purpose: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} result == nil ==> q.From[k].PerObjectQuery.For == old(q.For)
  ensures count: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} result == nil ==> len(q.From[k].PerObjectQuery.OrderBy) == cntO(old(q.OrderBy), old(q.From[k].Name), len(q.OrderBy))
  ensures order: forall k in 0..len(q.From), j in 0..len(q.OrderBy) :: {q.From[k].PerObjectQuery, old(q.OrderBy[j].Field.Name)} result == nil && old(q.OrderBy[j].Field.Type) == SoqlFieldInfo_Field && inObj(old(q.From[k].Name), old(q.OrderBy[j].Field.Name)) ==> 0 <= cntO(old(q.OrderBy), old(q.From[k].Name), j) && cntO(old(q.OrderBy), old(q.From[k].Name), j) < len(q.From[k].PerObjectQuery.OrderBy) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].Field.Name == old(q.OrderBy[j].Field.Name) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].Desc == old(q.OrderBy[j].Desc) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].NullsLast == old(q.OrderBy[j].NullsLast)
  stable postprocess.makePerObjectOrders forall k in 0..len(q.From), n in 0..len(q.OrderBy)+1 :: {cntO(q.OrderBy, q.From[k].Name, n)} cntOext(old(q.OrderBy), q.OrderBy, old(q.From[k].Name), q.From[k].Name, n)
  hint cntO(old(q.OrderBy), old(q.From[0].Name), 0) == 0
  loop 1
    import *
    invariant nam1: forall k in 0..len(q.From) :: {addr(q.From[k])} q.From[k].Name == old(q.From[k].Name)
    invariant zer1: forall k in 0..i :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery.OffsetAndLimit.Limit == 0 && q.From[k].PerObjectQuery.OffsetAndLimit.Offset == 0 && len(q.From[k].PerObjectQuery.OffsetAndLimit.LimitParamName) == 0 && len(q.From[k].PerObjectQuery.OffsetAndLimit.OffsetParamName) == 0 && len(q.From[k].PerObjectQuery.OrderBy) == 0 && allocated(q.From[k].PerObjectQuery.OrderBy)
  loop 2
    import *
  loop 3
    import *
    invariant nam3: forall k in 0..len(q.From) :: {addr(q.From[k])} q.From[k].Name == old(q.From[k].Name)
    invariant src3: forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j])} q.OrderBy[j].Field.Type == old(q.OrderBy[j].Field.Type) && q.OrderBy[j].Field.Name == old(q.OrderBy[j].Field.Name) && q.OrderBy[j].Desc == old(q.OrderBy[j].Desc) && q.OrderBy[j].NullsLast == old(q.OrderBy[j].NullsLast)
    invariant zer3: forall k in 1..len(q.From) :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery.OffsetAndLimit.Limit == 0 && q.From[k].PerObjectQuery.OffsetAndLimit.Offset == 0 && len(q.From[k].PerObjectQuery.OffsetAndLimit.LimitParamName) == 0 && len(q.From[k].PerObjectQuery.OffsetAndLimit.OffsetParamName) == 0
    invariant emp3: forall k in i..len(q.From) :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.OrderBy) && len(q.From[k].PerObjectQuery.OrderBy) == 0
    invariant lim3: i > 0 ==> q.From[0].PerObjectQuery.OffsetAndLimit == old(q.OffsetAndLimit)
    invariant for3: forall k in 0..i :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery.For == old(q.For)
    invariant cnt3: forall k in 0..i :: {q.From[k].PerObjectQuery} len(q.From[k].PerObjectQuery.OrderBy) == cntO(old(q.OrderBy), old(q.From[k].Name), len(q.OrderBy))
    invariant alo3: forall k in 0..i :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.OrderBy) using alo3 emp3 fre3 dis3 frames makePerObjectOrders
    invariant ord3: forall k in 0..i, j in 0..len(q.OrderBy) :: {q.From[k].PerObjectQuery, old(q.OrderBy[j].Field.Name)} old(q.OrderBy[j].Field.Type) == SoqlFieldInfo_Field && inObj(old(q.From[k].Name), old(q.OrderBy[j].Field.Name)) ==> 0 <= cntO(old(q.OrderBy), old(q.From[k].Name), j) && cntO(old(q.OrderBy), old(q.From[k].Name), j) < len(q.From[k].PerObjectQuery.OrderBy) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].Field.Name == old(q.OrderBy[j].Field.Name) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].Desc == old(q.OrderBy[j].Desc) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].NullsLast == old(q.OrderBy[j].NullsLast) using oldo newo adv
    hint ext3: forall k in 0..len(q.From), n in 0..len(q.OrderBy)+1 :: {cntO(old(q.OrderBy), old(q.From[k].Name), n)} cntOext(old(q.OrderBy), q.OrderBy, old(q.From[k].Name), q.From[k].Name, n)
    hint adv: assert(i == head(i) || i == head(i) + 1)
    hint elm3: assert(forall k in 0..head(i) :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery == head(q.From[k].PerObjectQuery) && q.From[k].PerObjectQuery.OrderBy == head(q.From[k].PerObjectQuery.OrderBy))
    hint oldo: assert(forall k in 0..head(i), j in 0..len(q.OrderBy) :: {q.From[k].PerObjectQuery, old(q.OrderBy[j].Field.Name)} old(q.OrderBy[j].Field.Type) == SoqlFieldInfo_Field && inObj(old(q.From[k].Name), old(q.OrderBy[j].Field.Name)) ==> 0 <= cntO(old(q.OrderBy), old(q.From[k].Name), j) && cntO(old(q.OrderBy), old(q.From[k].Name), j) < len(q.From[k].PerObjectQuery.OrderBy) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].Field.Name == old(q.OrderBy[j].Field.Name) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].Desc == old(q.OrderBy[j].Desc) && q.From[k].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[k].Name), j)].NullsLast == old(q.OrderBy[j].NullsLast))
    hint nm: assert(forall j in 0..len(q.OrderBy) :: {old(q.OrderBy[j].Field.Name)} q.OrderBy[j].Field.Name == old(q.OrderBy[j].Field.Name) && q.OrderBy[j].Field.Type == old(q.OrderBy[j].Field.Type) && q.OrderBy[j].Desc == old(q.OrderBy[j].Desc) && q.OrderBy[j].NullsLast == old(q.OrderBy[j].NullsLast))
    hint nc: assert(i > head(i) ==> (forall n in 0..len(q.OrderBy)+1 :: {cntO(old(q.OrderBy), old(q.From[head(i)].Name), n)} cntO(old(q.OrderBy), old(q.From[head(i)].Name), n) == cntO(q.OrderBy, q.From[head(i)].Name, n)))
    hint nw: assert(i > head(i) ==> (forall j in 0..len(q.OrderBy) :: {q.OrderBy[j].Field.Name} q.OrderBy[j].Field.Type == SoqlFieldInfo_Field && inObj(q.From[head(i)].Name, q.OrderBy[j].Field.Name) ==> 0 <= cntO(q.OrderBy, q.From[head(i)].Name, j) && cntO(q.OrderBy, q.From[head(i)].Name, j) < len(q.From[head(i)].PerObjectQuery.OrderBy) && q.From[head(i)].PerObjectQuery.OrderBy[cntO(q.OrderBy, q.From[head(i)].Name, j)] == q.OrderBy[j]))
    hint newo: assert(i > head(i) ==> (forall j in 0..len(q.OrderBy) :: {old(q.OrderBy[j].Field.Name)} old(q.OrderBy[j].Field.Type) == SoqlFieldInfo_Field && inObj(old(q.From[head(i)].Name), old(q.OrderBy[j].Field.Name)) ==> 0 <= cntO(old(q.OrderBy), old(q.From[head(i)].Name), j) && cntO(old(q.OrderBy), old(q.From[head(i)].Name), j) < len(q.From[head(i)].PerObjectQuery.OrderBy) && q.From[head(i)].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[head(i)].Name), j)].Field.Name == old(q.OrderBy[j].Field.Name) && q.From[head(i)].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[head(i)].Name), j)].Desc == old(q.OrderBy[j].Desc) && q.From[head(i)].PerObjectQuery.OrderBy[cntO(old(q.OrderBy), old(q.From[head(i)].Name), j)].NullsLast == old(q.OrderBy[j].NullsLast))) using nm nc nw nam3
  loop 4
    import *
    invariant nam4: forall k in 0..len(q.From) :: {addr(q.From[k])} q.From[k].Name == old(q.From[k].Name)
    invariant oth4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} q.From[k].PerObjectQuery.OffsetAndLimit == pre(q.From[k].PerObjectQuery.OffsetAndLimit) && q.From[k].PerObjectQuery.For == pre(q.From[k].PerObjectQuery.For) && q.From[k].PerObjectQuery.OrderBy == pre(q.From[k].PerObjectQuery.OrderBy)
    invariant alr4: forall k in 0..len(q.From) :: {q.From[k].PerObjectQuery} allocated(q.From[k].PerObjectQuery.OrderBy)
    invariant elm4: forall k in 0..len(q.From), j in 0..len(q.From[k].PerObjectQuery.OrderBy) :: {addr(q.From[k].PerObjectQuery.OrderBy[j])} q.From[k].PerObjectQuery.OrderBy[j].Field.Name == pre(q.From[k].PerObjectQuery.OrderBy[j].Field.Name) && q.From[k].PerObjectQuery.OrderBy[j].Desc == pre(q.From[k].PerObjectQuery.OrderBy[j].Desc) && q.From[k].PerObjectQuery.OrderBy[j].NullsLast == pre(q.From[k].PerObjectQuery.OrderBy[j].NullsLast)
