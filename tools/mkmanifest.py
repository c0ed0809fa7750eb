#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists('%s/props/%s.py' % (V, i)):
        na.append(dict(property=i, reason='no contract-based check built yet'))
        continue
    m = importlib.import_module('props.' + i)
    note = getattr(m, 'NOTE', '') or ('Every obligation generated from the current source of the functions listed is discharged '
            'for all inputs by z3 (cvc5 as second opinion).')
    b = getattr(m, 'BOUNDED', None)
    if b:
        note += ' Bounded stand-in, not proved: ' + '; '.join(b) + '.'
    note += ' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i,
                       thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=getattr(m, 'TECHNIQUE', 'deductive verification: contracts on the real functions, VCs by symbolic '
                                         'execution with loop invariants, discharged by z3/cvc5; counterexamples replayed on the real code'),
                       level=m.LEVEL, level_note=note))
json.dump(dict(version=1, setup_cmd='python3-vt engine/selftest.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks in /repo; only fix: commits (KNOWN_FINDINGS.txt).'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
