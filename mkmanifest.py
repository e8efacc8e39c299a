#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and props/*.py."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = 'TLA+ specification checked with TLC; trace validation of the real code'
NOTE = {}
NA = {
 'N01': 'accuracy of real-valued quadrature tables: no states or transitions for a finite TLA+ model to decide',
 'N02': 'continuum weak forms and consistent linearizations of some 200 terms are real-valued numerics outside of TLC',
 'N03': 'real-valued algebraic identities of elastic constants and units: numeric fidelity, not state',
 'N04': 'NURBS/Bezier geometry identities are real-valued polynomial numerics outside of TLC',
 'N05': 'convergence and accuracy orders of numerical solvers are real-valued claims outside of TLC',
}
exec(open(os.path.join(ROOT, 'level_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'props', i + '.py')):
        checks.append(dict(property=i,
                           quick_cmd='python3 check.py %s' % i,
                           thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH, level='model_checking',
                           level_note=NOTE.get(i, DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks,
               not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'),
          indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
