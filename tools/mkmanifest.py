"""Writes MANIFEST.json from properties.jsonl and the contract files present."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTES = json.load(open(H + '/tools/notes.json')) if os.path.exists(H + '/tools/notes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(H + '/contracts/%s.py' % i.lower()):
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contract-based deductive verification: symbolic execution of the instrumented real functions against pre/postconditions and loop invariants, obligations discharged by ring normalisation, z3 and cvc5; counterexamples replayed on the real code',
                       'level': 'proof',
                       'level_note': NOTES.get(i, 'Every obligation is generated from /repo\'s current source on each run and discharged for all inputs and sizes, over real arithmetic (floats idealised); the concrete execution of the same contracts on the real code is a bounded companion, not counted as proof.')})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, 'Not claimed yet: contracts under construction.')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import engine.term"', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. known_findings.jsonl lists recorded defects (kind finding) and repaired ones (kind fixed).'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
