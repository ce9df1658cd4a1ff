"""Writes MANIFEST.json from properties.jsonl and the META of the checks (run by hand after adding a check)"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/veriftools/pyvenv/bin/python'
TECH = ('symbolic execution of the real Python functions loaded from /repo (every branch forked on symbolic reals), '
        'obligations discharged over all inputs of a path by algebraic normalisation and Z3 (nonlinear real arithmetic), '
        'counterexamples replayed on the real package')
WAIT = 'no check decides it yet'
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')) and i not in NA:
        m = importlib.import_module('checks.' + i.lower()).META
        if m.get('claim', True):
            checks.append({'property': i, 'quick_cmd': '%s run.py %s --tier quick' % (PY, i), 'thorough_cmd': '%s run.py %s --tier thorough' % (PY, i),
                           'technique': m.get('technique', TECH), 'level': m.get('level', 'model_checking'),
                           'level_note': m.get('bounds', '') + '; outside: ' + m.get('outside', '')})
            continue
    na.append({'property': i, 'reason': NA.get(i, WAIT)})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
