#!/usr/bin/env python3
"""Writes /verif/checks.json and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("queries are generated at random from a grammar of the documented language (nested subqueries, aliases, relationships, all literal kinds, "
        "all clauses, random keyword case, white space and comments), mutated into near-miss text, and for C02/C04/C05/C06 every WHERE tree of up to 3 comparisons "
        "over 3 objects is enumerated; a case counts as non-trivial when it is accepted by the parser (or, for C01/C18/C17, when its verdict was compared) and its text was not seen before")
BOUNDED = ("bounded stand-in: executable contracts of this property evaluated on the real parser for the generated queries of this run; never counted as proved")
GENERAL = ["integers are mathematical: overflow of machine integers is not considered",
 "strings are opaque values: equality, concatenation, length, lower casing and case folding are uninterpreted functions with the stated axioms",
 "sequential execution: no other goroutine changes the memory of the parse",
 "trusted: the Go compiler and go/ssa lowering, the obligation generator goverif, and the solvers z3 and cvc5",
 "memory and stack exhaustion are not considered"]
checks = {}
def c(pid, level, technique, note, contracts=False, assumptions=(), secs=12, secs_thorough=300):
    checks[pid] = dict(level=level, technique=technique, note=note, contracts=contracts, assumptions=list(assumptions) + (GENERAL if contracts else []), secs=secs,
                       secs_thorough=secs_thorough, rule=RULE, bounded=BOUNDED)
exec(open(os.path.join(V, 'tools', 'levels.py')).read())
json.dump(checks, open(os.path.join(V, 'checks.json'), 'w'), indent=1)
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for pid in sorted(checks):
    k = checks[pid]
    m['checks'].append(dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + pid,
        evidence_file='evidence/%s.json' % pid, technique=k['technique'], level=k['level'], level_note=k['note']))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
