#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in mc/checks."""
import ast
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for line in open(os.path.join(HOME, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(HOME, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'the family applies, but its check is not built yet'})
        continue
    c = dict(constants(os.path.join(HOME, 'mc', 'checks', '_codec.py')))
    c.update(constants(path))
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py {} --tier quick'.format(p['id']),
        'thorough_cmd': 'python3 check.py {} --tier thorough'.format(p['id']),
        'evidence_file': 'evidence/{}.json'.format(p['id']),
        'technique': c.get('TECHNIQUE', 'stateless bounded-exhaustive model checking of the implementation against a reference model'),
        'level': 'model_checking',
        'level_note': c.get('LEVEL_NOTE') or ' '.join(c['ASSUMPTIONS']),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --selftest',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check copies /repo/src/eventio to a scratch directory, builds the extensions there and explores it; '
             'no hooks in /repo are needed.',
}
with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
