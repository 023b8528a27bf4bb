#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks in props/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}          # id -> reason
PENDING = 'no check has been built for this property yet'
NOTE = ('bounded symbolic execution of the real functions over exact reals, '
        'verdict by z3; bounds, stubs and assumptions are listed in DESIGN.md '
        'and in the evidence file')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i + '.py')):
        checks.append({
            'property': i, 'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'technique': 'symbolic execution of the real Python source with '
                         'SMT (z3) deciding every assertion; counterexamples '
                         'replayed on the real code',
            'level': 'model_checking', 'level_note': NOTE,
            'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, PENDING)})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'Checks run from /verif with /opt/venv/bin/python; z3 comes from '
              '/opt/veriftools. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(checks), 'checks', len(na), 'not claimed')
except ImportError:
    pass
