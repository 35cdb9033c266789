#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays readable)."""
import json
P='soql/parser/parser.go'; C='soql/parser/core/'; N='soql/parser/postprocess/'; T='soql/parser/types/'
def prop(id,title,st,text,why,files,mech,state=None,observe=None,over=('inputs',)):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ['parser.Parse'],hook_needed=None))
TODAY=" The existing tests run about 17 queries and only check that parsing reports no error and that JSON re-encodes to itself."
L=[
prop('C01','Parsing is total: a query or an error, never a panic',
 "For every input string, parsing returns exactly one of a non-nil query and a non-nil error, and never panics and never loops forever, up to exhaustion of memory or stack on absurdly deep nesting. A returned query always has at least one FROM object, meta information, and a condition list in every clause that is a well-formed postfix expression.",
 "every byte string given to the parser","panics hide behind slice indexing, type assertions and stack pops reached only by particular clause combinations."+TODAY,
 [P,C+'expressions1.go',C+'expressions2.go',C+'expressions3.go',C+'elements.go',N+'normalize.go',N+'normalizeperobj.go'],
 [('result check before the type assertion on the parsed tree',P+': Parse'),('transformer closures index and assert the AST values delivered by the grammar shape',C),('evaluation stacks over postfix conditions',N+'normalizeperobj.go: makePerObjectConditions, normalize2.go: distributeNotOperators')]),
prop('C02','WHERE and HAVING keep the logical meaning of the written condition',
 "For every accepted query, the recorded WHERE (and HAVING) condition, read as a postfix expression, has the same truth value as the condition written in the source for every assignment of truth values to its comparisons, where NOT binds tighter than AND, AND tighter than OR, and parentheses override. NOT never remains in the recorded condition: it is pushed into the comparisons, each of which keeps its operands, in source order, and has either its written operator or that operator's exact complement.",
 "every condition tree (any depth, any mix of and/or/not/parentheses) and every truth assignment","truth equivalence over all trees and all assignments cannot be sampled."+TODAY,
 [C+'rules.go',C+'expressions2.go',N+'normalize2.go',N+'normalizeperobj.go'],
 [('operator precedence production rules',C+'rules.go'),('NOT distribution over postfix operands',N+'normalize2.go: distributeNotOperators'),('removal of no-op entries',N+'normalizeperobj.go: compactConditions')],
 state=[dict(name='Where/Having',meaning='postfix list of conditions',where=T+'types.go: SoqlQuery')]),
prop('C03','Operators, operands and literal values are recorded as written',
 "Each comparison in WHERE or HAVING is recorded with the operator that was written (=, !=, <, <=, >, >=, like, not like, in, not in, includes, excludes; or its complement under NOT) and with its left and right operands in that order. Each literal is recorded with its kind and exact value: null, integers in base 2, 8, 10 and 16, floats, booleans, strings with all escapes decoded, dates, datetimes and times in UTC, lists item by item, parameters by name, and date literals by name and count.",
 "every comparison and every literal token","the token space (escapes, radices, dates, offsets, keyword-shaped operators) is infinite."+TODAY,
 [C+'elements.go',C+'expressions2.go',C+'expressions1.go',C+'const.go'],
 [('comparison transformer maps operator text to opcode',C+'expressions2.go: transWhereFieldExpression'),('literal grammar and transformers',C+'elements.go'),('class name to value kind mapping',C+'expressions1.go: fieldInfoTypeFromClassName')]),
prop('C04','Per-object filters are implied by the query filter and mention only own fields',
 "For every accepted query and every object in it, the object's own filter contains only comparisons copied from WHERE whose field operands are plain fields of that very object, with no unknown, function or subquery operand. It is implied by the whole WHERE condition under every truth assignment, so filtering an object by it never loses a row of the result; and every top-level AND-conjunct of WHERE that involves only that object's plain fields and literals is contained in it.",
 "every WHERE tree, every set of joined objects, every truth assignment","an implication between two conditions over all assignments, for all trees."+TODAY,
 [N+'normalizeperobj.go'],
 [('weakening of parts that concern other objects to an unknown truth value',N+'normalizeperobj.go: makePerObjectConditions'),('selection of the object by name',N+'normalizeperobj.go: buildPerObjectInfo')]),
prop('C05','Per-object filters and the post filter together equal the query filter',
 "For every accepted query, the conjunction of all per-object filters and the post-processing filter is logically equivalent to the query's WHERE condition under every assignment of truth values to its comparisons. The post-processing filter is itself a single well-formed postfix condition built from comparisons of WHERE (or empty).",
 "every WHERE tree over any number of objects and every truth assignment","logical equivalence for all trees and assignments."+TODAY,
 [N+'normalizeperobj.go'],
 [('removal of conditions already applied per object',N+'normalizeperobj.go: makePostProcessWhereClause'),('partial operands are not pushed down below or',N+'normalizeperobj.go: makePerObjectConditions')]),
prop('C06','Join flags say exactly which objects restrict the result',
 "For every accepted query, an object is flagged as having conditions exactly when some WHERE comparison has a plain field of that object as an operand, and flagged as inner joined exactly when it is not the head object of its query and its own filter is non-empty. In the view graph a view is inner joined exactly when it is not a head view and it or a view below it in the same query is flagged inner joined on its object.",
 "every query, over all join trees and WHERE trees","the flags are a function of the whole WHERE tree and of graph reachability."+TODAY,
 [N+'normalizeperobj.go',N+'normalize.go'],
 [('flag computation per object',N+'normalizeperobj.go: makePerObjectConditions, buildPerObjectInfo'),('propagation over the view graph',N+'normalize.go: Normalize')]),
prop('C07','Every referenced plain field is fetched and its column index points to it',
 "For every accepted query, each plain field referenced in SELECT, WHERE, GROUP BY, HAVING, ORDER BY or inside function arguments is present in the field list of the per-object query of the object that owns it, and its recorded column index is the position in that list of an entry for the same field. Per-object field lists contain only fields of their own object, each recorded with its own position among entries for that field, and fields added because they were not selected are marked as not selected.",
 "every query, every reference position","index consistency has to hold for all combinations of references, duplicates and objects."+TODAY,
 [N+'normalize2.go',N+'normalize3.go',N+'normalizeperobj.go'],
 [('adding of unselected fields',N+'normalize2.go: addUnselectedFields'),('per-object field lists',N+'normalizeperobj.go: makePerObjectFields, buildPerObjectInfo'),('column index lookup',N+'normalize3.go')]),
prop('C08','Query, view and column ids are unique, consistent and densely numbered',
 "For every accepted query, query ids are 1..n-1 in pre-order, each used by exactly one (sub)query, view ids are 1..n-1, one per distinct object path of the FROM list of each (sub)query, and column ids lie in 1..n-1, where n is the respective next-id reported in the meta information. Within one scope two plain field references have the same column id exactly when they name the same field (ignoring case), and a field's view id is the id of the view of the object that owns it.",
 "every query including nested subqueries","uniqueness and consistency range over all nestings and repetitions."+TODAY,
 [N+'normalize.go',N+'normalize2.go'],
 [('id counters and id maps',N+'normalize.go: normalizeQuery'),('column id assignment',N+'normalize2.go: assignColumnIdToField, assignColumnIds')],
 state=[dict(name='columnIdMap, viewIdMap',meaning='path key to id per scope',where=N+'normalize.go: normalizeQueryContext')]),
prop('C09','The query graph and the view graph are faithful trees',
 "For every accepted query, the query graph has exactly one entry per (sub)query, whose parent is the enclosing query, whose depth is one more than its parent's, and which is marked conditional exactly when it is a WHERE or HAVING operand. The view graph has exactly one entry per view; its parent is the view whose path is one step shorter (none for head objects of queries that are not select-list subqueries), its name is the last path step, its depth is one more than its parent's, and the reported maximum depths are the maxima over the entries.",
 "every nesting of subqueries and relationship paths","graph facts over unbounded nesting."+TODAY,
 [N+'normalize.go'],
 [('graph leaf construction',N+'normalize.go: normalizeQuery'),('implicit registration of relationship objects',N+'normalize1.go: normalizeFieldName, normalizeObjectName')]),
prop('C10','Object and field names resolve to full paths, ignoring case, through aliases',
 "For every accepted query, every object and plain field name is recorded as a full path starting at the head object of its scope: an unqualified name belongs to the head object of its own query, a leading alias or head object name is replaced by the path it stands for, and any other leading name is a relationship of the query's head object. Resolution ignores letter case, each object on the path of a referenced field is present in the FROM list of the query or of an enclosing query, and never twice unless the query itself lists it twice, and ORDER BY may not introduce new objects.",
 "every set of objects, aliases and paths, in any letter case","resolution depends on the history of previously registered names and aliases."+TODAY,
 [N+'normalize1.go',N+'normalize.go'],
 [('object name map from keys to full paths',N+'normalize1.go: normalizeObjectName, normalizeFieldName'),('scope copy for nested select subqueries',N+'normalize.go: normalizeQuery')]),
prop('C11','JSON encoding of a parsed query decodes back to the same query',
 "For every accepted query whose literal values are representable in JSON (finite floats, valid UTF-8, years up to 9999), encoding the parsed query as JSON succeeds, decoding the result succeeds, and the decoded query equals the original in every exported, encoded field, including kinds, opcodes, and dynamically typed literal values and list items. Encoding the decoded query gives the same text again.",
 "every value of the query data type reachable from parsing","round-trip equality for every kind of value; the existing test only compares re-encoded text of a few queries, which equal loss in both directions does not change.",
 [T+'types.go',T+'marshaller.go',T+'marshalhelper.go'],
 [('name tables of enumerations',T+'types.go: String methods'),('custom (un)marshalling',T+'marshaller.go, marshalhelper.go')],observe=['parser.Parse','encoding/json of types.SoqlQuery']),
prop('C12','Clauses are recorded exactly as written',
 "For every accepted query, the SELECT items that were written come first, in order and with their aliases, followed only by added not-selected fields; GROUP BY and ORDER BY items keep their order, with descending and nulls-last set exactly when written (nulls first is the default). LIMIT and OFFSET, in either order, record their number or parameter; FOR VIEW, FOR REFERENCE and FOR UPDATE (with TRACKING/VIEWSTAT) set exactly the corresponding flags; and the head object's own query receives LIMIT, OFFSET and its own fields' ordering.",
 "every combination and order of optional clauses","combinatorial; defaults and flags are silent when wrong."+TODAY,
 [C+'expressions1.go',C+'expressions2.go',C+'expressions3.go',N+'normalizeperobj.go'],
 [('clause transformers',C+'expressions3.go'),('statement assembly',C+'expressions3.go: selectStatementInner')]),
prop('C13','Letter case of keywords, white space and comments do not change the result',
 "For every query text, changing the letter case of keywords, operators words and date literal names, or replacing white space between tokens by any other non-empty mix of white space, line comments and block comments, changes neither acceptance nor the parsed result. String literals and names are exempt: they keep their spelling.",
 "every query text and every re-spelling of it","a relation between pairs of inputs."+TODAY,
 [C+'elements.go',C+'expressions1.go',C+'expressions2.go',C+'expressions3.go'],
 [('case-insensitive keyword matchers and space/comment skipping',C+'elements.go: sp0, sp1, comment'),('lower-casing of operator text',C+'expressions2.go: conditionalOperator')]),
prop('C14','Meta information lists every function, parameter and date literal used',
 "For every accepted query, the meta information lists in lower case exactly the function names, parameter names and date literal names that occur anywhere in it: in select items, arguments, WHERE, HAVING, value lists, LIMIT, OFFSET and all subqueries. The recorded source is the input text.",
 "every query and every position a function, parameter or date literal can occur in","completeness over all positions."+TODAY,
 [N+'normalize1.go',N+'normalize.go',P],
 [('registration during name normalisation',N+'normalize1.go: normalizeFieldName'),('limit/offset parameters',N+'normalize.go: normalizeQuery')]),
prop('C15','Result column names are unambiguous',
 "For every accepted query, no two SELECT items of the same (sub)query have the same alias ignoring case, and no two FROM objects have the same alias; a query in which the user writes such duplicates is rejected. Items that need a generated name (expressions, and repetitions of a field without alias) get names that differ from each other and from every written alias, and written aliases are never changed.",
 "every set of select items and aliases","uniqueness over all alias sets, including aliases that look like generated names."+TODAY,
 [N+'normalize.go',N+'normalize2.go'],
 [('alias maps',N+'normalize.go: normalizeQuery'),('generated names',N+'normalize2.go: assignImplicitAliasNames')]),
prop('C16','Parses are deterministic and isolated from each other',
 "Parsing the same text again gives an equal result (except for timestamps), whatever was parsed or done with earlier results in between. Results of different parses share no mutable memory, so modifying one never affects another or a later parse.",
 "every sequence of parses and modifications of results","a statement about all histories; map iteration order and shared backing arrays do not show in single runs."+TODAY,
 [P,N+'normalize.go',C+'rules.go',C+'const.go'],
 [('all post-processing state lives in a fresh context',N+'normalize.go: Normalize'),('grammar closures keep no state',C)],over=('inputs','histories')),
prop('C17','Aggregation rules are enforced independently of item order',
 "A query is an aggregation exactly when it has GROUP BY or calls COUNT or COUNT_DISTINCT in its select list; then every plain field selected outside a function is one of the GROUP BY items (or is grouped through its alias), and no FIELDS() item and no subquery is selected. HAVING requires GROUP BY, COUNT and COUNT_DISTINCT are rejected in WHERE, duplicate GROUP BY or ORDER BY items are rejected, and none of these decisions depends on the order of the select items.",
 "every select list, in every order","rejection rules over all lists and permutations; the tests contain no rejected query.",
 [N+'normalize.go',N+'normalize1.go'],
 [('pre-scan for aggregate functions',N+'normalize1.go: preScanFunctionFields'),('grouping check',N+'normalize1.go: normalizeFieldName'),('having/group by checks',N+'normalize.go: normalizeQuery')]),
prop('C18','Only complete queries are accepted, and errors point into the source',
 "A text is accepted only if all of it, except surrounding white space and comments, is one query: text with anything before or after the query, an unterminated string, comment or parenthesis, a missing mandatory part, or a truncated clause is rejected. A syntax error reports a line and column that lie within the source text.",
 "every input string","all texts that are not queries; the tests contain accepted queries only.",
 [P,C+'parser.go',C+'expressions3.go'],
 [('start and end anchors',C+'parser.go: Query'),('end-of-query look-ahead',C+'expressions3.go: selectStatementInner'),('error position',P+': Parse')]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in L))
