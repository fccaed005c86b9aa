#!/opt/veriftools/pyvenv/bin/python3
"""Writes /verif/MANIFEST.json from contracts/registry.py and properties.jsonl."""
import os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from contracts.registry import REG, NA
import jsonschema
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in REG:
        r = REG[i]
        checks.append({'property': i, 'quick_cmd': f'python3-vt bin/check.py {i}', 'thorough_cmd': f'python3-vt bin/check.py {i} --thorough',
                       'technique': r.get('technique', 'deductive verification: contracts on the real functions, VC generation over LLVM IR, SMT'), 'level': r['level'],
                       'level_note': r['note']})
    else: na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q vcg contracts bin', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo. See DESIGN.md.'}
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
