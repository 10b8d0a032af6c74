"""Writes MANIFEST.json from the list of checks in lib/props.py and the texts here."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'lib'))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(R, "tools"))
import props
from levels import NOTES
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                           technique='TLA+ specification (TLC); conformance by trace validation and replay of specification behaviours' + NOTES[i][0],
                           level='model_checking', level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the harnesses compile its sources and interpose at link time. See DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
