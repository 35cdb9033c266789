// The query graph: ids in pre-order, one entry per query, the parent is the enclosing query.

// visited: the query was entered by normalizeQuery
ghostfield SoqlQuery.visited bool

// what normalizing (a part of) a query writes
list queryWrites
  heap(SoqlFieldInfo), heap(SoqlObjectInfo), elemsof(SoqlCondition), heap(SoqlOrderByInfo)
  heap(SoqlFieldInfo.coldone), heap(SoqlFieldInfo.scanned), heap(SoqlQuery.visited), heap(SoqlQuery.wperm)
  heap(SoqlQuery.QueryId), heap(SoqlQuery.Parent), heap(SoqlQuery.From), heap(SoqlQuery.Fields), heap(SoqlQuery.Where), heap(SoqlQuery.Having)
  heap(SoqlQuery.PostProcessWhere), heap(SoqlQuery.IsAggregation), heap(SoqlQuery.IsCorelated), heap(SoqlQuery.OrderBy), heap(SoqlQuery.OffsetAndLimit), heap(SoqlQuery.For)
  ctx.queryId, ctx.viewId, ctx.columnId, ctx.viewIdMap, ctx.columnIdMap, ctx.colIndexMap, ctx.headObjDepthOffset, ctx.maxQueryDepth, ctx.maxViewDepth
  content(ctx.queryGraph), content(ctx.viewGraph), content(ctx.viewIdMap), content(ctx.columnIdMap), content(ctx.colIndexMap)
  content(ctx.functions), content(ctx.parameters), content(ctx.dateTimeLiterals), content(objNameMap)
end

list graph
  ctx != nil && ctx.queryId >= 1 && ctx.queryGraph != nil
  forall k: int :: {has(ctx.queryGraph, k)} has(ctx.queryGraph, k) <==> 1 <= k && k < ctx.queryId
  forall k: int :: {ctx.queryGraph[k].Query} 1 <= k && k < ctx.queryId ==> ctx.queryGraph[k].Query != nil && ctx.queryGraph[k].Query.visited && ctx.queryGraph[k].Query.QueryId == k
  forall k: int :: {ctx.queryGraph[k].Depth} 1 <= k && k < ctx.queryId ==> ctx.queryGraph[k].Depth <= ctx.maxQueryDepth
  forall k: int :: {ctx.queryGraph[k].ParentQueryId} 1 <= k && k < ctx.queryId ==> k == 1 && ctx.queryGraph[k].ParentQueryId == 0 && ctx.queryGraph[k].Depth == 1 || 1 <= ctx.queryGraph[k].ParentQueryId && ctx.queryGraph[k].ParentQueryId < k
  forall k: int, m: int :: {ctx.queryGraph[k].Depth, ctx.queryGraph[m].Depth} 1 < k && k < ctx.queryId && m == ctx.queryGraph[k].ParentQueryId ==> ctx.queryGraph[k].Depth == ctx.queryGraph[m].Depth + 1
  forall p: *SoqlQuery :: {p.visited} p.visited ==> valid(p) && 1 <= p.QueryId && p.QueryId < ctx.queryId
  forall p: *SoqlQuery, k: int :: {p.visited, ctx.queryGraph[k].Query} p.visited && k == p.QueryId ==> ctx.queryGraph[k].Query == p
end

list grow
  ctx.queryId >= old(ctx.queryId) && ctx.maxQueryDepth >= old(ctx.maxQueryDepth)
  forall k: int :: {ctx.queryGraph[k].ParentQueryId} 1 <= k && k < old(ctx.queryId) ==> ctx.queryGraph[k].ParentQueryId == old(ctx.queryGraph[k].ParentQueryId)
  forall k: int :: {ctx.queryGraph[k].Depth}{old(ctx.queryGraph[k].Depth)} 1 <= k && k < old(ctx.queryId) ==> ctx.queryGraph[k].Depth == old(ctx.queryGraph[k].Depth)
  forall k: int :: {ctx.queryGraph[k].IsConditional} 1 <= k && k < old(ctx.queryId) ==> ctx.queryGraph[k].IsConditional == old(ctx.queryGraph[k].IsConditional)
  forall k: int :: {ctx.queryGraph[k].Query} 1 <= k && k < old(ctx.queryId) ==> ctx.queryGraph[k].Query == old(ctx.queryGraph[k].Query)
  ctx.maxQueryDepth == old(ctx.maxQueryDepth) || (exists k in old(ctx.queryId)..ctx.queryId :: {ctx.queryGraph[k].Depth} ctx.queryGraph[k].Depth == ctx.maxQueryDepth)
  forall p: *SoqlQuery :: {p.visited}{old(p.visited)} old(p.visited) ==> p.visited
  forall p: *SoqlQuery :: {p.QueryId} old(p.visited) ==> p.QueryId == old(p.QueryId)
  forall p: *SoqlQuery :: {p.Parent} old(p.visited) ==> p.Parent == old(p.Parent)
end

list restored
  ctx.viewIdMap == old(ctx.viewIdMap) && ctx.columnIdMap == old(ctx.columnIdMap) && ctx.colIndexMap == old(ctx.colIndexMap) && ctx.headObjDepthOffset == old(ctx.headObjDepthOffset)
end

list inner
  q.visited && q.QueryId == old(ctx.queryId) && ctx.queryId > old(ctx.queryId)
  ctx.queryGraph[q.QueryId].ParentQueryId == (callParentQuery == nil ? 0 : old(callParentQuery.QueryId)) && ctx.queryGraph[q.QueryId].Depth == queryDepth && ctx.queryGraph[q.QueryId].Query == q
  ctx.queryGraph[q.QueryId].IsConditional == (qPlace == soqlQueryPlace_ConditionalOperand)
  forall k: int :: {ctx.queryGraph[k].ParentQueryId} old(ctx.queryId) < k && k < ctx.queryId ==> ctx.queryGraph[k].ParentQueryId >= old(ctx.queryId)
end

// p has its entry, below the query it is an item of
fn isSub(ctx *normalizeQueryContext, q *SoqlQuery, p *SoqlQuery, c bool) bool = p.visited && ctx.queryGraph[p.QueryId].ParentQueryId == q.QueryId && ctx.queryGraph[p.QueryId].IsConditional == c && ctx.queryGraph[p.QueryId].Query == p

func postprocess.normalizeQueryContext.normalizeFieldName
  props C09
  partial names are not empty
  assumepre nameutil.MakeDottedKeyIgnoreCase names are not empty
  assumepre postprocess.normalizeQueryContext.normalizeQuery/there a subquery item of the parser has its query
  assumepre postprocess.normalizeQueryContext.normalizeQuery/unvisited the queries of the parser form a tree
  assumepre postprocess.normalizeQueryContext.normalizeQuery/complete the parser hands over complete conditions
  assumepre postprocess.normalizeQueryContext.normalizeQuery/apart the conditions of a query do not share memory
  requires field != nil && q != nil
  requires[C08 C09] q.visited && ctx.queryGraph[q.QueryId].Depth == queryDepth
  requires[C08 C09] @graph
  modifies @queryWrites
  noterm the queries and parameters of the parser form a finite tree
  ensures[C08 C09] @graph
  ensures[C08 C09] @grow
  ensures[C08 C09] forall k: int :: {ctx.queryGraph[k].ParentQueryId} old(ctx.queryId) <= k && k < ctx.queryId ==> ctx.queryGraph[k].ParentQueryId == q.QueryId || ctx.queryGraph[k].ParentQueryId >= old(ctx.queryId)
  ensures[C08 C09] result == nil && old(field.Type) == SoqlFieldInfo_SubQuery ==> (forall p: *SoqlQuery :: {p.visited} p == old(field.SubQuery) ==> p.visited && p.QueryId == old(ctx.queryId)) && ctx.queryGraph[old(ctx.queryId)].ParentQueryId == q.QueryId
  ensures[C08 C09] result == nil && old(field.Type) == SoqlFieldInfo_SubQuery ==> ctx.queryGraph[old(ctx.queryId)].IsConditional == (qPlace == soqlQueryPlace_ConditionalOperand)
  ensures[C08 C09] result == nil ==> ctx.viewIdMap == old(ctx.viewIdMap) && ctx.columnIdMap == old(ctx.columnIdMap) && ctx.colIndexMap == old(ctx.colIndexMap) && ctx.headObjDepthOffset == old(ctx.headObjDepthOffset)
  keep postprocess.normalizeQueryContext.normalizeQuery field.Type, field.SubQuery because an item is not part of its own subquery
  ensures[C08 C09] result == nil && old(field.Type) == SoqlFieldInfo_SubQuery ==> field.Type == SoqlFieldInfo_SubQuery && field.SubQuery == old(field.SubQuery)
  ensures[C08 C09] result == nil && old(field.Type) == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, field.SubQuery, qPlace == soqlQueryPlace_ConditionalOperand)
  loop 3
    invariant[C08 C09] q.visited && ctx.queryGraph[q.QueryId].Depth == queryDepth
    invariant[C08 C09] @graph
    invariant[C08 C09] @restored
    invariant[C08 C09] @grow
    invariant[C08 C09] forall k: int :: {ctx.queryGraph[k].ParentQueryId} old(ctx.queryId) <= k && k < ctx.queryId ==> ctx.queryGraph[k].ParentQueryId == q.QueryId || ctx.queryGraph[k].ParentQueryId >= old(ctx.queryId)

func postprocess.normalizeQueryContext.normalizeQuery
  props C09
  partial names are not empty, every query has a head object
  enter q.visited := true
  requires there: q != nil && valid(q)
  requires[C08 C09] unvisited: !q.visited
  requires complete: allocated(q.Where) && allocated(q.Having) && complete(q.Where) && complete(q.Having)
  requires apart: len(q.Where) > 0 && len(q.Having) > 0 ==> arr(q.Where) != arr(q.Having)
  requires[C08 C09] @graph
  requires[C08 C09] callParentQuery == nil ==> queryDepth == 1 && ctx.queryId == 1
  requires[C08 C09] callParentQuery != nil ==> callParentQuery.visited && ctx.queryGraph[callParentQuery.QueryId].Depth + 1 == queryDepth
  modifies @queryWrites
  keep postprocess.normalizeQueryContext.normalizeFieldName q.Fields, q.Where, q.Having, elems(q.Fields).Type, elems(q.Fields).SubQuery, elems(q.Where), elems(q.Having) because the items of a query are not part of its subqueries
  noterm the queries and parameters of the parser form a finite tree
  ensures[C08 C09] @graph
  ensures[C08 C09] @grow
  ensures[C08 C09] @inner
  ensures[C08 C09] result == nil ==> ctx.viewIdMap == old(ctx.viewIdMap) && ctx.columnIdMap == old(ctx.columnIdMap) && ctx.colIndexMap == old(ctx.colIndexMap) && ctx.headObjDepthOffset == old(ctx.headObjDepthOffset)
  assumepre postprocess.normalizeQueryContext.normalizeObjectName names are not empty
  assumepre nameutil.MakeDottedKeyIgnoreCase names are not empty
  assumepre postprocess.normalizeQueryContext.buildPerObjectInfo names are not empty
  assumepre postprocess.normalizeQueryContext.assignColumnIds the ids in the column map are below the next one
  loop 5
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
    invariant[C08 C09] @restored
  loop 7
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
    invariant[C08 C09] @restored
  loop 10
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
    invariant[C08 C09] @restored
  loop 11
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
    invariant[C08 C09] @restored
  loop 12
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
    invariant[C08 C09] @restored
  loop 18
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
    invariant[C08 C09] @restored
  loop 24
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
  loop 25
    invariant[C08 C09] @graph
    invariant[C08 C09] @grow
    invariant[C08 C09] @inner
  loop 6
    clear SoqlFieldInfo.scanned
    invariant[C08 C09] scanOk(q)

// The conditions on their way to the objects: complete when they are complemented, complete and without not when
// the queries of the objects are made from them.
aspect postprocess.normalizeQueryContext.normalizeQuery#conditions
  props C04 C05 C02
  provepre postprocess.distributeNotOperators postprocess.normalizeQueryContext.buildPerObjectInfo/wf
  stable postprocess.distributeNotOperators Rext(old(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  loop 5
    invariant wh: q.Where == old(q.Where) && allocated(q.Where)
    invariant we: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Opcode == old(q.Where[j].Opcode)
    invariant wc: complete(q.Where)
    invariant hh: q.Having == old(q.Having) && allocated(q.Having)
    invariant he: forall j in 0..len(q.Having) :: {addr(q.Having[j])} q.Having[j].Opcode == old(q.Having[j].Opcode)
    invariant hc: complete(q.Having)
    hint Rext(old(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
    hint Rext(old(q.Having), q.Having, idarr, idarr, 0, len(q.Having))
  loop 7
    invariant wh: q.Where == old(q.Where) && allocated(q.Where)
    invariant we: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Opcode == old(q.Where[j].Opcode)
    invariant wc: complete(q.Where)
    invariant hh: q.Having == old(q.Having) && allocated(q.Having)
    invariant he: forall j in 0..len(q.Having) :: {addr(q.Having[j])} q.Having[j].Opcode == old(q.Having[j].Opcode)
    invariant hc: complete(q.Having)
    hint Rext(old(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
    hint Rext(old(q.Having), q.Having, idarr, idarr, 0, len(q.Having))
  loop 10
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    invariant wo: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Opcode == pre(q.Where[j].Opcode)
    invariant ap: len(q.Where) > 0 && len(q.Having) > 0 ==> arr(q.Where) != arr(q.Having)
    invariant hh: q.Having == old(q.Having) && allocated(q.Having)
    invariant he: forall j in 0..len(q.Having) :: {addr(q.Having[j])} q.Having[j].Opcode == old(q.Having[j].Opcode)
    invariant hc: complete(q.Having)
    hint wh: assert(q.Where == head(q.Where))
    hint wn: assert(i > head(i) ==> q.Where[head(i)].Opcode == head(q.Where[i].Opcode))
    hint wk: assert(forall j in 0..len(q.Where) :: {addr(q.Where[j])} j != head(i) ==> q.Where[j].Opcode == head(q.Where[j].Opcode))
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
    hint Rext(old(q.Having), q.Having, idarr, idarr, 0, len(q.Having))
  loop 11
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    invariant ap: len(q.Where) > 0 && len(q.Having) > 0 ==> arr(q.Where) != arr(q.Having)
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  loop 12
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  loop 13
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  loop 14
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  loop 15
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))
  loop 16
    invariant wa: allocated(q.Where)
    invariant wf: wfCond(q.Where)
    hint Rext(head(q.Where), q.Where, idarr, idarr, 0, len(q.Where))

aspect postprocess.normalizeQueryContext.normalizeQuery#items
  props C09
  ensures fs: result == nil ==> (forall j in 0..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Fields[j].SubQuery, false)) using len18 len24 len25 fs18 fs24 ws24 fs25 ws25 hs25 frames
  ensures ws: result == nil ==> (forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Where[j].Value.SubQuery, true)) using len18 len24 len25 fs18 fs24 ws24 fs25 ws25 hs25 frames
  ensures hs: result == nil ==> (forall j in 0..len(q.Having) :: {addr(q.Having[j])} q.Having[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Having[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Having[j].Value.SubQuery, true)) using len18 len24 len25 fs18 fs24 ws24 fs25 ws25 hs25 frames
  loop 5
    import *
  loop 7
    import *
  loop 10
    import *
  loop 11
    import *
  loop 12
    import *
  loop 18
    import *
    invariant len18: len(q.Fields) == pre(len(q.Fields))
    invariant fs18: forall j in 0..i :: {addr(q.Fields[j])} q.Fields[j].Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Fields[j].SubQuery, false)
    hint assert(i > head(i) && q.Fields[head(i)].Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Fields[head(i)].SubQuery, false))
    hint assert(forall j in 0..head(i) :: {addr(q.Fields[j])} q.Fields[j].Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Fields[j].SubQuery, false))
  loop 24
    import *
    invariant len24: len(q.Where) == pre(len(q.Where))
    invariant fs24: forall j in 0..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Fields[j].SubQuery, false)
    invariant ws24: forall j in 0..i :: {addr(q.Where[j])} q.Where[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Where[j].Value.SubQuery, true)
    hint assert(i > head(i) && q.Where[head(i)].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[head(i)].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Where[head(i)].Value.SubQuery, true))
    hint assert(forall j in 0..head(i) :: {addr(q.Where[j])} q.Where[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Where[j].Value.SubQuery, true))
  loop 25
    import *
    invariant len25: len(q.Having) == pre(len(q.Having))
    invariant fs25: forall j in 0..len(q.Fields) :: {addr(q.Fields[j])} q.Fields[j].Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Fields[j].SubQuery, false)
    invariant ws25: forall j in 0..len(q.Where) :: {addr(q.Where[j])} q.Where[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Where[j].Value.SubQuery, true)
    invariant hs25: forall j in 0..i :: {addr(q.Having[j])} q.Having[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Having[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Having[j].Value.SubQuery, true)
    hint assert(i > head(i) && q.Having[head(i)].Opcode == SoqlConditionOpcode_FieldInfo && q.Having[head(i)].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Having[head(i)].Value.SubQuery, true))
    hint assert(forall j in 0..head(i) :: {addr(q.Having[j])} q.Having[j].Opcode == SoqlConditionOpcode_FieldInfo && q.Having[j].Value.Type == SoqlFieldInfo_SubQuery ==> isSub(ctx, q, q.Having[j].Value.SubQuery, true))

// the query graph in the meta information
list metaTree
  result == nil ==> (forall k: int :: {has(q.Meta.QueryGraph, k)} has(q.Meta.QueryGraph, k) <==> 1 <= k && k < q.Meta.NextQueryId)
  result == nil ==> (forall k: int :: {q.Meta.QueryGraph[k].Query} 1 <= k && k < q.Meta.NextQueryId ==> q.Meta.QueryGraph[k].Query.visited && q.Meta.QueryGraph[k].Query.QueryId == k)
  result == nil ==> (forall p: *SoqlQuery :: {p.visited} p.visited ==> 1 <= p.QueryId && p.QueryId < q.Meta.NextQueryId)
  result == nil ==> (forall p: *SoqlQuery, k: int :: {p.visited, q.Meta.QueryGraph[k].Query} p.visited && k == p.QueryId ==> q.Meta.QueryGraph[k].Query == p)
  result == nil ==> (q.visited && q.QueryId == 1 && q.Meta.QueryGraph[1].ParentQueryId == 0 && q.Meta.QueryGraph[1].Depth == 1 && !q.Meta.QueryGraph[1].IsConditional)
  result == nil ==> (forall k: int :: {q.Meta.QueryGraph[k].ParentQueryId} 1 < k && k < q.Meta.NextQueryId ==> 1 <= q.Meta.QueryGraph[k].ParentQueryId && q.Meta.QueryGraph[k].ParentQueryId < k)
  result == nil ==> (forall k: int, m: int :: {q.Meta.QueryGraph[k].Depth, q.Meta.QueryGraph[m].Depth} 1 < k && k < q.Meta.NextQueryId && m == q.Meta.QueryGraph[k].ParentQueryId ==> q.Meta.QueryGraph[k].Depth == q.Meta.QueryGraph[m].Depth + 1)
  result == nil ==> (forall k: int :: {q.Meta.QueryGraph[k].Depth} 1 <= k && k < q.Meta.NextQueryId ==> q.Meta.QueryGraph[k].Depth <= q.Meta.MaxQueryDepth)
  result == nil ==> (exists k in 1..q.Meta.NextQueryId :: {q.Meta.QueryGraph[k].Depth} q.Meta.QueryGraph[k].Depth == q.Meta.MaxQueryDepth)
end

func postprocess.Normalize
  props C09 C08
  partial the parser sets the meta information of the query
  clear SoqlQuery.visited
  requires q != nil && valid(q)
  requires allocated(q.Where) && allocated(q.Having) && complete(q.Where) && complete(q.Having)
  requires len(q.Where) > 0 && len(q.Having) > 0 ==> arr(q.Where) != arr(q.Having)
  modifies heap(SoqlFieldInfo), heap(SoqlObjectInfo), heap(SoqlCondition), heap(SoqlOrderByInfo)
  modifies heap(SoqlFieldInfo.coldone), heap(SoqlFieldInfo.scanned), heap(SoqlQuery.visited), heap(SoqlQuery.wperm)
  modifies heap(SoqlQuery.QueryId), heap(SoqlQuery.Parent), heap(SoqlQuery.From), heap(SoqlQuery.Fields), heap(SoqlQuery.Where), heap(SoqlQuery.Having)
  modifies heap(SoqlQuery.PostProcessWhere), heap(SoqlQuery.IsAggregation), heap(SoqlQuery.IsCorelated), heap(SoqlQuery.OrderBy), heap(SoqlQuery.OffsetAndLimit), heap(SoqlQuery.For)
  modifies q.Meta.NextQueryId, q.Meta.NextViewId, q.Meta.NextColumnId, q.Meta.MaxQueryDepth, q.Meta.MaxViewDepth, q.Meta.QueryGraph, q.Meta.ViewGraph, q.Meta.Functions, q.Meta.Parameters, q.Meta.DateTimeLiterals
  modifies heap(SoqlViewGraphLeaf), contents(q.Meta.ViewGraph)
  noterm the parent of a view has a smaller id
  ensures @metaTree
