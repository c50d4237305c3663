#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = {}
cur = None
for line in open(V + '/tools/levels.txt'):
    line = line.rstrip('\n')
    if not line or line.startswith('#'):
        continue
    if line[0] != ' ':
        cur = line.strip()
        notes[cur] = ''
    else:
        notes[cur] += (' ' if notes[cur] else '') + line.strip()
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [], 'not_applicable': [],
    'notes': 'Contracts are in /verif/contracts, keyed by function; the verifier gv (in /verif/gv) generates and discharges the obligations from /repo\'s current source on every run. No hooks are needed in /repo.',
}
for p in props:
    i = p['id']
    if i in notes:
        m['checks'].append({
            'property': i,
            'quick_cmd': './run.sh %s quick' % i,
            'thorough_cmd': './run.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the real Go code (gv over go/ssa, discharged by z3/cvc5), with a bounded search for failing inputs on the real code',
            'level': 'proof',
            'level_note': notes[i],
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no contract decides it yet'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
