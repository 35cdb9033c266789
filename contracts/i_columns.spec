// Column ids: plain fields get the id of their key, everything else an id of its own.

// every key has an id below the next one, and different keys have different ids
fn idMapOk(m map[string]int, next int) bool =
  next >= 1 && m != nil &&
  (forall k: string :: {m[k]} has(m, k) ==> 1 <= m[k] && m[k] < next) &&
  (forall k: string, l: string :: {m[k], m[l]} has(m, k) && has(m, l) && m[k] == m[l] ==> k == l)

// coldone: the field and all its parameters, at any depth, were visited: plain fields have a column id
ghostfield SoqlFieldInfo.coldone bool

fn colDone() bool = forall f: *SoqlFieldInfo :: {f.coldone} f.coldone ==> (f.Type == SoqlFieldInfo_Field ==> f.ColumnId != 0) &&
  (f.Type == SoqlFieldInfo_Function ==> (forall i in 0..len(f.Parameters) :: {addr(f.Parameters[i]).coldone} addr(f.Parameters[i]).coldone))

func postprocess.normalizeQueryContext.assignColumnIdToField
  props C08
  requires ctx != nil && field != nil && idMapOk(ctx.columnIdMap, ctx.columnId) && colDone() && ctx.columnIdMap != ctx.viewIdMap && allocated(ctx.viewIdMap)
  modifies heap(SoqlFieldInfo.coldone), ctx.columnId, content(ctx.columnIdMap), heap(SoqlFieldInfo.ColumnId), heap(SoqlFieldInfo.ViewId)
  noterm parameters form a finite tree
  ensures idMapOk(ctx.columnIdMap, ctx.columnId)
  ensures ctx.columnId >= old(ctx.columnId)
  ensures forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
  ensures forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
  ensures old(field.ColumnId) == 0 && field.Type == SoqlFieldInfo_Field ==> has(ctx.columnIdMap, field.Key) && field.ColumnId == ctx.columnIdMap[field.Key]
  ensures forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
  ensures forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
  ensures forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
  ensures colDone()
  ensures forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
  ensures forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
  ensures field.coldone
  ensures forall f: *SoqlFieldInfo :: {f.coldone} old(f.coldone) ==> f.coldone
  set field.coldone := true
  hint forall s: []string :: {dk(s, len(s))} dkext(s, field.Name, len(s))
  loop 1
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant forall f: *SoqlFieldInfo :: {f.coldone} old(f.coldone) ==> f.coldone
    invariant forall j in 0..i :: {addr(field.Parameters[j]).coldone} addr(field.Parameters[j]).coldone
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant old(field.ColumnId) == 0 && field.Type == SoqlFieldInfo_Field ==> has(ctx.columnIdMap, field.Key) && field.ColumnId == ctx.columnIdMap[field.Key]
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g

func postprocess.normalizeQueryContext.assignColumnIds
  props C08
  requires ctx != nil && q != nil && idMapOk(ctx.columnIdMap, ctx.columnId) && ctx.columnIdMap != ctx.viewIdMap && allocated(ctx.viewIdMap)
  modifies heap(SoqlFieldInfo.coldone), ctx.columnId, content(ctx.columnIdMap), heap(SoqlFieldInfo.ColumnId), heap(SoqlFieldInfo.ViewId)
  clear SoqlFieldInfo.coldone
  ensures colDone()
  ensures forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
  ensures forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
  ensures idMapOk(ctx.columnIdMap, ctx.columnId)
  ensures ctx.columnId >= old(ctx.columnId)
  ensures forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
  ensures forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
  ensures forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
  ensures forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
  ensures forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
  ensures forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
  ensures forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
  ensures forall j in 0..len(q.GroupBy) :: {addr(q.GroupBy[j]).coldone} addr(q.GroupBy[j]).coldone
  ensures forall j in 0..len(q.Where) :: {addr(q.Where[j].Value).coldone} addr(q.Where[j].Value).coldone
  ensures forall j in 0..len(q.Having) :: {addr(q.Having[j].Value).coldone} addr(q.Having[j].Value).coldone
  loop 1
    decreases len(q.Fields) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..i :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
  loop 2
    decreases len(q.OrderBy) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
    invariant forall j in 0..i :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
  loop 3
    decreases len(q.GroupBy) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
    invariant forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
    invariant forall j in 0..i :: {addr(q.GroupBy[j]).coldone} addr(q.GroupBy[j]).coldone
  loop 4
    decreases len(q.Where) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
    invariant forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
    invariant forall j in 0..len(q.GroupBy) :: {addr(q.GroupBy[j]).coldone} addr(q.GroupBy[j]).coldone
    invariant forall j in 0..i :: {addr(q.Where[j].Value).coldone} addr(q.Where[j].Value).coldone
  loop 5
    decreases len(q.Having) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
    invariant forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
    invariant forall j in 0..len(q.GroupBy) :: {addr(q.GroupBy[j]).coldone} addr(q.GroupBy[j]).coldone
    invariant forall j in 0..len(q.Where) :: {addr(q.Where[j].Value).coldone} addr(q.Where[j].Value).coldone
    invariant forall j in 0..i :: {addr(q.Having[j].Value).coldone} addr(q.Having[j].Value).coldone
  loop 6
    decreases len(q.Having) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
    invariant forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
    invariant forall j in 0..len(q.GroupBy) :: {addr(q.GroupBy[j]).coldone} addr(q.GroupBy[j]).coldone
    invariant forall j in 0..len(q.Where) :: {addr(q.Where[j].Value).coldone} addr(q.Where[j].Value).coldone
    invariant forall j in 0..len(q.Having) :: {addr(q.Having[j].Value).coldone} addr(q.Having[j].Value).coldone
  loop 7
    decreases len(q.Fields) - i
    invariant colDone()
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId == old(f.ColumnId) || f.Type == SoqlFieldInfo_Function ==> f.ViewId == old(f.ViewId)
    invariant forall f: *SoqlFieldInfo :: {f.ViewId} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Function && len(f.Name) > 0 && has(ctx.viewIdMap, dk(f.Name, len(f.Name)-1)) ==> f.ViewId == ctx.viewIdMap[dk(f.Name, len(f.Name)-1)]
    invariant idMapOk(ctx.columnIdMap, ctx.columnId)
    invariant ctx.columnId >= old(ctx.columnId)
    invariant forall k: string :: {ctx.columnIdMap[k]}{old(has(ctx.columnIdMap, k))} old(has(ctx.columnIdMap, k)) ==> has(ctx.columnIdMap, k) && ctx.columnIdMap[k] == old(ctx.columnIdMap[k])
    invariant forall k: string :: {ctx.columnIdMap[k]} has(ctx.columnIdMap, k) && !old(has(ctx.columnIdMap, k)) ==> ctx.columnIdMap[k] >= old(ctx.columnId)
    invariant forall f: *SoqlFieldInfo :: {f.ColumnId} f.ColumnId == old(f.ColumnId) || old(f.ColumnId) == 0 && f.Type == SoqlFieldInfo_Field && has(ctx.columnIdMap, f.Key) && f.ColumnId == ctx.columnIdMap[f.Key] || old(f.ColumnId) == 0 && f.Type != SoqlFieldInfo_Field && old(ctx.columnId) <= f.ColumnId && f.ColumnId < ctx.columnId
    invariant forall f: *SoqlFieldInfo, k: string :: {f.ColumnId, ctx.columnIdMap[k]} f.ColumnId != old(f.ColumnId) && f.Type != SoqlFieldInfo_Field && has(ctx.columnIdMap, k) ==> f.ColumnId != ctx.columnIdMap[k]
    invariant forall f: *SoqlFieldInfo, g: *SoqlFieldInfo :: {f.ColumnId, g.ColumnId} f.ColumnId != old(f.ColumnId) && g.ColumnId != old(g.ColumnId) && f.Type != SoqlFieldInfo_Field && f.ColumnId == g.ColumnId ==> f == g
    invariant forall j in 0..len(q.Fields) :: {addr(q.Fields[j]).coldone} addr(q.Fields[j]).coldone
    invariant forall j in 0..len(q.OrderBy) :: {addr(q.OrderBy[j].Field).coldone} addr(q.OrderBy[j].Field).coldone
    invariant forall j in 0..len(q.GroupBy) :: {addr(q.GroupBy[j]).coldone} addr(q.GroupBy[j]).coldone
    invariant forall j in 0..len(q.Where) :: {addr(q.Where[j].Value).coldone} addr(q.Where[j].Value).coldone
    invariant forall j in 0..len(q.Having) :: {addr(q.Having[j].Value).coldone} addr(q.Having[j].Value).coldone
