From 7337b7e0a5d41d478db6f7f004db5830ac306db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 01/22] fix: 'and' must bind tighter than 'or' in conditional
 expressions

The right operand of every logical operator was reduced as a complete
expression, so `a and b or c` was parsed as `a and (b or c)`.
---
 soql/parser/core/expressions2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..975162b 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -203,7 +203,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					Indirect(whereConditionExpressionInnerRoot),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -355,7 +355,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						Indirect(havingConditionExpressionInnerRoot),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From cb2edbe9fb8bbe3cc297e4564e5f9cc16f398a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 02/22] fix: recognize the 'not like' and 'not in' operators

The two words were not concatenated, so the operator was taken as a
logical 'not' and the comparison was lost.
---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 975162b..7f124f8 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From 122376a68a7ce93e1186672f1a6e68a6bcb7a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 03/22] fix: 'not' must be distributed only to the operators in
 its operand

---
 soql/parser/postprocess/normalize2.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..84948b5 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -99,10 +99,18 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 }
 
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
+	// Start positions of the operands on the evaluation stack.
+	starts := make([]int, 0, len(conditions))
+
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
+		case SoqlConditionOpcode_Noop:
+			// do nothing
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			starts = append(starts, i)
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			// Invert only the operators in the operand of this not operator.
+			for j := starts[len(starts)-1]; j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
@@ -135,6 +143,9 @@ func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 				}
 			}
 			conditions[i].Opcode = SoqlConditionOpcode_Noop
+		default:
+			// The result of the binary operator starts from its first operand.
+			starts = starts[:len(starts)-1]
 		}
 	}
 	return compactConditions(conditions)
-- 
2.43.0


From 80b39f049f993ce75d5282f0942fa5deadd54ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 04/22] fix: conditions partially pushed down under 'or' must
 be kept in the post-process filter

---
 soql/parser/postprocess/normalizeperobj.go | 12 +++++++++++-
 soql/parser/postprocess/types.go           |  7 ++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index f1c2d19..700490b 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -99,6 +99,7 @@ CHECK_FIELDS:
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
 				stack[sp].minPos = i
+				stack[sp].partial = false
 				sp++
 			}
 		case SoqlConditionOpcode_FieldInfo:
@@ -106,6 +107,7 @@ CHECK_FIELDS:
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
 				stack[sp].minPos = i
+				stack[sp].partial = false
 
 				switch cond.Value.Type {
 				case SoqlFieldInfo_Field:
@@ -129,6 +131,7 @@ CHECK_FIELDS:
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
 				stack[sp].minPos = op1.minPos
+				stack[sp].partial = op1.partial
 
 				if op1.cond.Opcode == SoqlConditionOpcode_Unknown {
 					// Retain one Unknown on the stack.
@@ -148,6 +151,7 @@ CHECK_FIELDS:
 
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
+				stack[sp].partial = op1.partial || op2.partial
 
 				maxPos := -1
 				if op1.srcPos > op2.srcPos {
@@ -185,6 +189,7 @@ CHECK_FIELDS:
 						}
 					}
 					conditions[i].Opcode = SoqlConditionOpcode_Noop
+					stack[sp].partial = true
 				}
 
 				sp++
@@ -197,6 +202,7 @@ CHECK_FIELDS:
 
 				stack[sp].cond = cond
 				stack[sp].srcPos = i
+				stack[sp].partial = op1.partial || op2.partial
 
 				maxPos := -1
 				if op1.srcPos > op2.srcPos {
@@ -211,7 +217,11 @@ CHECK_FIELDS:
 					stack[sp].minPos = op2.minPos
 				}
 
-				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown {
+				// NOTE: A partial operand is weaker than the original one. It cannot be an operand of the operators except `and`,
+				//       because the original operand must be evaluated in the post-process filter.
+				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown ||
+					op1.partial || op2.partial {
+
 					// Retain one Unknown on the stack.
 					for j := stack[sp].minPos; j <= maxPos; j++ {
 						conditions[j].Opcode = SoqlConditionOpcode_Noop
diff --git a/soql/parser/postprocess/types.go b/soql/parser/postprocess/types.go
index 2740d05..356e4a7 100644
--- a/soql/parser/postprocess/types.go
+++ b/soql/parser/postprocess/types.go
@@ -5,9 +5,10 @@ import (
 )
 
 type soqlConditionStack struct {
-	cond   SoqlCondition
-	srcPos int
-	minPos int
+	cond    SoqlCondition
+	srcPos  int
+	minPos  int
+	partial bool // Some of the conjuncts are removed because they are unknown for the object.
 }
 
 type soqlQueryPlace int
-- 
2.43.0


From 2c9e38cf253177366377e6d191b94d32d13ef1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 05/22] fix: unmarshal the datetime literal names in the list
 items

---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From e566ebdfe0d5fd81fea6d72799b56a1b6c73f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 06/22] fix: register the parameters and datetime literals in
 the list items to the meta information

---
 soql/parser/postprocess/normalize1.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..3f09c61 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -323,6 +323,19 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
 		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
+	case SoqlFieldInfo_Literal_List:
+		if items, ok := field.Value.([]SoqlListItem); ok {
+			for i := 0; i < len(items); i++ {
+				switch v := items[i].Value.(type) {
+				case string:
+					if items[i].Type == SoqlFieldInfo_ParameterizedValue {
+						ctx.parameters[strings.ToLower(v)] = struct{}{}
+					}
+				case SoqlDateTimeLiteralName:
+					ctx.dateTimeLiterals[strings.ToLower(v.Name)] = struct{}{}
+				}
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From b44f424f3c6c2852e093d188b2371847c7b36469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 07/22] fix: normalize the letter case of the offset and limit
 parameter names in the meta information

---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..ee49d86 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 92e688077a61e2daa5d526b10cd4b9f705dbf38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 08/22] fix: resolve the alias names in the group by clause
 case-insensitively

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index ee49d86..cd5042e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -164,7 +164,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From 4775f78e2a4deeec3de30f022e698fc6b9a8f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 09/22] fix: determine the aggregation query before checking
 the select clause fields

---
 soql/parser/postprocess/normalize.go  | 9 +++++----
 soql/parser/postprocess/normalize1.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index cd5042e..474c24c 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -127,6 +127,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	// NOTE: Whether it is an aggregation query should be determined before checking each item.
+	for i := 0; i < len(q.Fields); i++ {
+		preScanFunctionFields(&q.Fields[i], q)
+	}
+
 	fieldAliasMap := make(map[string]*SoqlFieldInfo)
 
 	for i := 0; i < len(q.Fields); i++ {
@@ -227,10 +232,6 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	for i := 0; i < len(q.Fields); i++ {
-		preScanFunctionFields(&q.Fields[i], q)
-	}
-
 	if q.OrderBy != nil {
 		for i := 0; i < len(q.OrderBy); i++ {
 			field := q.OrderBy[i].Field
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 3f09c61..aa1d769 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -28,7 +28,7 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 			}
 
 			switch funcName {
-			case "count":
+			case "count", "count_distinct":
 				q.IsAggregation = true
 			}
 
-- 
2.43.0


From 87a2c5df2ba03cecd5c049ec293face7831c6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 10/22] fix: 'for view' and 'for reference' clauses are not
 'for update' clause

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From 1c5ac0e781b261d1e69b25826a71fb2a917ec444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 11/22] fix: the 'for' clause following the from clause must
 not be taken as an alias name

---
 soql/parser/core/elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..6597ecf 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,7 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(SeqI("for"), sp1(), First(SeqI("view"), SeqI("reference"), SeqI("update")), WordBoundary()),
 		),
 		Concat,
 	)
-- 
2.43.0


From a189113aa2c3f831e1bccb8637ebac9978d3e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 12/22] fix: the primary object view of conditional subquery
 must not be marked as inner joined

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 474c24c..3879147 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -468,7 +468,7 @@ func Normalize(q *SoqlQuery) error {
 			next := leaf.ParentViewId
 			for next != 0 {
 				l2 := ctx.viewGraph[next]
-				if l2.Depth == 1 || l2.Many || l2.QueryId != leaf.QueryId {
+				if l2.ParentViewId == 0 || l2.Many || l2.QueryId != leaf.QueryId {
 					break
 				}
 				l2.InnerJoin = true
-- 
2.43.0


From e2af2ec2ee928199f81ebc9dccbcb45035d19ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 13/22] fix: conditional subqueries must not share the views
 and columns with each other

---
 soql/parser/postprocess/normalize.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 3879147..849db0d 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -384,15 +384,17 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	savedColumnIdMap := ctx.columnIdMap
 	savedColIndexMap := ctx.colIndexMap
 	savedHeadObjDepthOffset := ctx.headObjDepthOffset
-	ctx.viewIdMap = make(map[string]int)
-	ctx.columnIdMap = make(map[string]int)
-	ctx.colIndexMap = make(map[string]int)
 	ctx.headObjDepthOffset = len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
 			condition := q.Where[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// NOTE: Each conditional subquery has its own views and columns.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, nil, normalizeFieldNameConf{
@@ -414,6 +416,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Having); i++ {
 			condition := q.Having[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// NOTE: Each conditional subquery has its own views and columns.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, groupingFields, normalizeFieldNameConf{
-- 
2.43.0


From e3e96dbf58a6efe0a99aca98cdfd9345ee81a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 14/22] fix: do not duplicate the implicitly registered object
 that is listed explicitly later

---
 soql/parser/postprocess/normalize.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 849db0d..790b8cd 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -72,6 +72,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	objectAliasMap := make(map[string]*SoqlObjectInfo)
+	listedCount := len(q.From)
 
 	for i := 0; i < len(q.From); i++ {
 		object := q.From[i]
@@ -104,6 +105,21 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	{
+		// NOTE: An implicitly registered object may be listed explicitly later.
+		listedKeys := make(map[string]struct{})
+		for i := 0; i < listedCount; i++ {
+			listedKeys[q.From[i].Key] = struct{}{}
+		}
+		from := q.From[:listedCount]
+		for _, object := range q.From[listedCount:] {
+			if _, ok := listedKeys[object.Key]; !ok {
+				from = append(from, object)
+			}
+		}
+		q.From = from
+	}
+
 	groupingFields := make(map[string]struct{})
 
 	if q.GroupBy != nil {
-- 
2.43.0


From bf66df59951ba1be2d73ba733625a2db39e657fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 15/22] fix: find the parent view of the primary object of
 subquery that is registered after it

---
 soql/parser/postprocess/normalize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 790b8cd..56a2cfa 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -294,7 +294,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		} else {
 			q.From[i].ViewId = viewId
 		}
+	}
 
+	for i := 0; i < len(q.From); i++ {
 		nameLen := len(q.From[i].Name)
 		objDepth := nameLen + ctx.headObjDepthOffset
 		if ctx.maxViewDepth < objDepth {
-- 
2.43.0


From b59d6a18ba37ff60133edbc3af9749bfaaeea4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 16/22] fix: subqueries of the select clause must not overwrite
 the views of the other queries

---
 soql/parser/postprocess/normalize.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 56a2cfa..f480e59 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -92,6 +92,13 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		if err := ctx.normalizeObjectName(&object, q, objNameMap); err != nil {
 			return err
 		}
+		if qPlace == soqlQueryPlace_Select {
+			if _, ok := ctx.viewIdMap[object.Key]; ok {
+				return errors.New(
+					"The object of the subquery is already used in the outer query: " +
+						strings.Join(object.Name, "."))
+			}
+		}
 		q.From[i] = object
 
 		if object.AliasName != "" {
@@ -365,6 +372,13 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		field := q.Fields[i]
 
 		if field.Type == SoqlFieldInfo_SubQuery {
+			// NOTE: The views of the subquery are not shared with the other subqueries.
+			savedViewIdMap := ctx.viewIdMap
+			ctx.viewIdMap = make(map[string]int)
+			for k, v := range savedViewIdMap {
+				ctx.viewIdMap[k] = v
+			}
+
 			if err := ctx.normalizeFieldName(
 				&field, soqlQueryPlace_Select, q, queryDepth,
 				objNameMap, groupingFields, normalizeFieldNameConf{
@@ -377,6 +391,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 				return err
 			}
+			ctx.viewIdMap = savedViewIdMap
 			q.Fields[i] = field
 		}
 	}
-- 
2.43.0


From 5936f9a2d88093d8083bbcc23d8dfb8574377097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 17/22] fix: infinite loop when an object alias name is the
 same as the name of the primary object

---
 soql/parser/postprocess/normalize.go  | 2 +-
 soql/parser/postprocess/normalize1.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index f480e59..cc0e46e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -74,7 +74,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	objectAliasMap := make(map[string]*SoqlObjectInfo)
 	listedCount := len(q.From)
 
-	for i := 0; i < len(q.From); i++ {
+	for i := 0; i < listedCount; i++ {
 		object := q.From[i]
 
 		if i != 0 || !(qPlace == soqlQueryPlace_Primary || qPlace == soqlQueryPlace_ConditionalOperand) {
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index aa1d769..aefe71b 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -386,6 +386,11 @@ func (ctx *normalizeQueryContext) normalizeObjectName(
 		objNameMap[key] = currentName
 		if len(object.AliasName) > 0 {
 			// TODO: Check duplicated name
+			if len(currentName) > 1 && strings.ToLower(object.AliasName) == strings.ToLower(currentName[0]) {
+				return errors.New(
+					"The object alias name is the same as the name of the primary object: " + object.AliasName)
+			}
+
 			objNameMap[base64.StdEncoding.EncodeToString([]byte(strings.ToLower(object.AliasName)))] = currentName
 
 			s := make([]string, 0, len(currentName))
-- 
2.43.0


From e9eab6e4f673f9d89ae620d2f88c83abc3f6c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 18/22] fix: reject the item whose grouping field is hidden by
 the alias name of another item

---
 soql/parser/postprocess/normalize.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index cc0e46e..ee7d987 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -199,6 +199,18 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 				}
 			}
 		}
+
+		// NOTE: The grouping field may have been replaced with the field that has the same alias name.
+		if q.IsAggregation {
+			for i := 0; i < len(q.Fields); i++ {
+				if q.Fields[i].Type == SoqlFieldInfo_Field {
+					if _, ok := groupingFields[q.Fields[i].Key]; !ok {
+						return errors.New(
+							"The item must be included in a Group By clause: " + strings.Join(q.Fields[i].Name, "."))
+					}
+				}
+			}
+		}
 	}
 
 	if q.Where != nil {
-- 
2.43.0


From 8b0f666a8cdf25f9468d46414481f1a8840f12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 19/22] fix: share no column indexes between sibling select
 subqueries

---
 soql/parser/postprocess/normalize.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index ee7d987..49c15d3 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -384,12 +384,17 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		field := q.Fields[i]
 
 		if field.Type == SoqlFieldInfo_SubQuery {
-			// NOTE: The views of the subquery are not shared with the other subqueries.
+			// NOTE: The views and column indexes of the subquery are not shared with the other subqueries.
 			savedViewIdMap := ctx.viewIdMap
 			ctx.viewIdMap = make(map[string]int)
 			for k, v := range savedViewIdMap {
 				ctx.viewIdMap[k] = v
 			}
+			savedColIndexMap := ctx.colIndexMap
+			ctx.colIndexMap = make(map[string]int)
+			for k, v := range savedColIndexMap {
+				ctx.colIndexMap[k] = v
+			}
 
 			if err := ctx.normalizeFieldName(
 				&field, soqlQueryPlace_Select, q, queryDepth,
@@ -404,6 +409,13 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 				return err
 			}
 			ctx.viewIdMap = savedViewIdMap
+			ctx.colIndexMap = savedColIndexMap
+			// NOTE: The correlated subquery may have added fields to the objects of this query.
+			for j := range q.From {
+				for k := range q.From[j].PerObjectQuery.Fields {
+					ctx.colIndexMap[q.From[j].PerObjectQuery.Fields[k].Key] = k
+				}
+			}
 			q.Fields[i] = field
 		}
 	}
-- 
2.43.0


From 686a358085c9314e0f284bcdc94b8d74da7e1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 20/22] fix: keep the to-many flag of a subquery whose object
 is listed twice in FROM

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 49c15d3..16e52ac 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -335,7 +335,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			QueryId:      q.QueryId,
 			Depth:        objDepth,
 			QueryDepth:   queryDepth,
-			Many:         qPlace == soqlQueryPlace_Select && i == 0,
+			Many:         qPlace == soqlQueryPlace_Select && q.From[i].ViewId == q.From[0].ViewId,
 			InnerJoin:    false, // set later
 			NonResult:    qPlace == soqlQueryPlace_ConditionalOperand,
 			Object:       &q.From[i],
-- 
2.43.0


From cffb20c130efdc174300193750a7835d33f80d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 21/22] fix: head object listed twice is not inner joined in
 the view graph

---
 soql/parser/postprocess/normalize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 16e52ac..610e3e2 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -376,7 +376,8 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 	for i := 0; i < len(q.From); i++ {
 		leaf := ctx.viewGraph[q.From[i].ViewId]
-		leaf.InnerJoin = q.From[i].InnerJoin
+		// NOTE: The head object may be listed again.
+		leaf.InnerJoin = q.From[i].InnerJoin && q.From[i].ViewId != q.From[0].ViewId
 		ctx.viewGraph[q.From[i].ViewId] = leaf
 	}
 
-- 
2.43.0


From 6d1c67481261b730387cd4f5e44f5616be14edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:45 +0000
Subject: [PATCH 22/22] fix: field of a related object of the outer query
 referred to in a subquery is fetched

---
 soql/parser/postprocess/normalize3.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 5c97839..1932c9a 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -18,7 +18,11 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				fields[i].ColIndex = -1
 			}
 
-			if len(fields[i].Name) <= len(q.From[0].Name) {
+			// NOTE: The field may be owned by an ancestor object or an object related to it.
+			headLen := len(q.From[0].Name)
+			if len(fields[i].Name) <= headLen ||
+				!nameutil.NameEqualsIgnoreCase(q.From[0].Name, fields[i].Name[:headLen]) {
+
 				q.IsCorelated = true
 
 				if fields[i].ColIndex == -1 {
-- 
2.43.0

