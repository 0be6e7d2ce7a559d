"""Writes /verif/MANIFEST.json: a check per property with harnesses, the rest not applicable."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from sx import registry

REASONS = {
    'C28': 'the real callables are C functions behind the FFI: their argument checks cannot be '
           'executed symbolically from /repo, and sampling concrete calls is another technique',
}
DEFAULT = 'no harness for it yet'
registry.load()
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, absent = [], []
for prop in props:
    key = prop['id']
    if key in registry.HARNESSES:
        bounds = '; '.join(f'{h.name}: {h.bounds}' for h in registry.HARNESSES[key].values())
        checks.append({
            'property': key,
            'quick_cmd': f'./check {key} --tier quick',
            'thorough_cmd': f'./check {key} --tier thorough',
            'technique': 'symbolic execution of the real Python code with z3 (all feasible paths '
                         'within stated bounds, assertions discharged by the solver, '
                         'counterexamples replayed on the unmodified code)',
            'level': 'model_checking',
            'level_note': ('Bounded: ' + bounds)[:1500],
        })
    else:
        absent.append({'property': key, 'reason': REASONS.get(key, DEFAULT)})
manifest = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks,
            'not_applicable': absent}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
print(len(checks), 'checks', [a['property'] for a in absent])
