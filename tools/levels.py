GV = 'contract-based deductive verification: contracts on the real code, obligations generated from /repo and discharged by z3 and cvc5 (goverif); executable contracts on generated queries as bounded stand-in for the rest'
BD = 'executable contracts (pre/postconditions of the parser) evaluated on the real code for generated queries (bounded)'
proved = {
 'C02': 'Proved for all inputs: compactConditions and distributeNotOperators keep the value of the condition under every truth assignment, remove every not, and keep the operands and their order. At both calls (WHERE, HAVING) normalizeQuery hands over the complete condition of the parser. Bounded: that the parser builds the condition as written.',
 'C04': 'Proved for all inputs: buildPerObjectInfo leaves every object a complete filter of entries of WHERE in their order, on plain fields of the object, together with the post filter equal to WHERE; makePerObjectConditions yields a well-formed filter implied by WHERE, with only plain fields of its object, no unknown operand. normalizeQuery hands it a complete condition without not whenever the parser hands over a complete one. Bounded: that every top-level conjunct is contained in it and that the condition of the parser is complete.',
 'C05': 'Proved for all inputs: after buildPerObjectInfo the filters of the objects and the post filter together have the value of WHERE under every truth assignment (makePerObjectConditions, makePostProcessWhereClause, compactConditions). normalizeQuery hands it a complete condition without not whenever the parser hands over a complete one (its precondition is proved at the call). Bounded: that the condition of the parser is complete and is the written one.',
 'C06': 'Proved for all inputs: buildPerObjectInfo flags an object as having conditions exactly when a comparison of WHERE has a plain field of it, and as inner joined exactly when it is not the head and its filter is not empty. Bounded: propagation of the flags to the view graph.',
 'C07': 'Proved for all inputs: the per-object field lists hold exactly the fields of their object in query order (makePerObjectFields). Bounded: column indexes and added fields.',
 'C08': 'Proved for all inputs: assignColumnIds gives every plain field, at any depth of function arguments, the column id of its key and the view id of its namespace, with ids below the next id, different for different keys and for every expression; query ids are dense and distinct (Normalize); keys (MakeDottedKeyIgnoreCase) are equal exactly for names equal ignoring case. Bounded: view ids, and that the fields have no id before (call-site preconditions).',
 'C09': 'Proved for all inputs: from Normalize down, the query graph has exactly the ids below the next one, one entry per visited query, the parent is the enclosing query, depths add one from the root, the greatest depth is reached, and the subqueries of SELECT, WHERE and HAVING each have their entry with the right parent and conditional flag. Bounded: the view graph, and that the parser hands over a tree.',
 'C12': 'Proved for all inputs: buildPerObjectInfo gives LIMIT and OFFSET to the head object only and FOR to every object, and each object exactly its order items in query order with direction and nulls. Bounded: clauses as recorded by the grammar.',
 'C15': 'Proved for all inputs: assignImplicitAliasNames gives unambiguous names and keeps written aliases. Bounded: rejection of duplicate written aliases.',
 'C17': 'Proved for all inputs: frame and safety of preScanFunctionFields. Bounded: the aggregation rules.',
}
bounded = {
 'C01': 'The parser is built from closures of the external combinator library takenoco and cannot be brought under contract; executable contract on generated and mutated texts, each in a process with a time limit. The functions under contract of the other properties are proved free of panics.',
 'C03': 'Literals and operators are recorded by grammar closures (takenoco); executable contract against the written query.',
 'C10': 'Executable contract on generated queries: names compared with a reference resolution; the key function is proved (see C08).',
 'C11': 'Decided through encoding/json, which works by reflection: executable round-trip contract on generated queries.',
 'C13': 'A statement about two runs of the grammar (takenoco closures): executable contract on pairs of texts.',
 'C14': 'Executable contract on generated queries: the sets are recomputed from the written query and from the result.',
 'C16': 'A statement about two results: executable contract on sequences of parses, with a disjointness check of their memory.',
 'C17': 'Executable contract on generated queries with permuted items.',
 'C18': 'A statement about the grammar (takenoco closures): executable contract on truncated, extended and damaged texts.',
}
for i in range(1, 19):
    p = 'C%02d' % i
    if p in proved and p != 'C17':
        c(p, 'proof', GV, proved[p], contracts=True)
    else:
        c(p, 'exploration', BD, bounded[p])
