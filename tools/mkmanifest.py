#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs present; known_findings.json keeps the list of repaired defects."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'default': 'Every obligation generated from the current source of the functions under contract is discharged, for all inputs and all iterations; assumes the listed contracts on CPython builtins and library functions and the soundness of the generator pyvc and z3.',
}
NA = {
}
sys.path.insert(0, HERE)
try: from pyvc.assumptions import LEVEL_NOTE
except ImportError: LEVEL_NOTE = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'specs', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
            technique='contract-based deductive verification: verification conditions generated from the real Python source, discharged by z3',
            level='proof', level_note=LEVEL_NOTE.get(i, NOTES['default'])))
    else: na.append(dict(property=i, reason=NA.get(i, 'no contract written yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q pyvc specs testers check.py >/dev/null 2>&1; python3-vt -c "import z3"', checks=checks, not_applicable=na,
    notes='One driver (check.py) per property: it generates verification conditions from the source in /repo on every run (pyvc), discharges them, and executes the same contracts on concrete inputs to turn failed obligations into failing inputs.'),
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
