#!/usr/bin/env python3
"""writes MANIFEST.json from the rule tables"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from wp import rules, props
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C90': 'quantifies over all thresholds of runtime vote tables and asks for the least one: the value of an unbounded search, with no structural clause beyond the round rule already claimed as C14',
 'C91': 'equality of whole histories over runtime counter values (a counter at zero stays stored, a decremented one may turn negative): no static argument in reach bounds it; the structural clause (same counter, plus one and minus one) is C07',
 'C92': 'a statement about the distribution of a pseudo random generator seeded from the clock; nothing in the shape of the code decides it, the structural clauses are C24 and C26',
 'C93': 'depends on the memory use of the allocator and of the hash table at run time',
 'C94': 'equivalence of two programs for every client program; the structural clauses (same interface, same vocabulary, each operation agreeing with the same reference) are C27 and the header half of the other checks',
}
checks = []; na = []
for p in P:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if i not in rules.CHECKED and i not in props.TABLE:
        na.append({'property': i, 'reason': 'no check yet'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                   'technique': rules.TECHNIQUE.get(i, 'value-graph comparison with a reviewed reference'), 'level': rules.LEVEL.get(i, 'other'),
                   'level_note': rules.NOTE.get(i, 'see DESIGN.md')})
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks read the unmodified sources. Known findings and repaired defects are in KNOWN_FINDINGS.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
