"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Holds for every value within the stated bounds (sizes, degrees, batch shapes); decided by z3 on an encoding '
        'regenerated from the jaxpr of the current source. Trusts: JAX tracing (jaxpr = what runs), the interpreter '
        'of jaxpr primitives (validated against real execution on every run), z3, and reads floats as reals.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append({'property': i,
                       'quick_cmd': f'/opt/venv/bin/python run.py {i} quick',
                       'thorough_cmd': f'/opt/venv/bin/python run.py {i} thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'symbolic execution of traced jaxprs, SMT (z3) verdict per goal and path',
                       'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'Run from /verif; reads /repo working tree (VERIF_REPO overrides). See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
