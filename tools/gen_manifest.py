#!/usr/bin/env python3
"""Writes MANIFEST.json: every property in properties.jsonl with a module in checks/ is claimed."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'explicit-state model checking: bounded-exhaustive exploration of the real engine against a reference model'
NOTE = ('Exhaustive within the stated bounds on the real code driven through its wire protocol; trusts the node model '
        '(mc/node.py), the reference semantics in the check and the Python interpreter.')


def consts(path):
    r = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE', 'LEVEL'):
            r[n.targets[0].id] = ast.literal_eval(n.value)
    return r


def main():
    checks, na = [], []
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)['id']
        f = os.path.join(V, 'checks', p.lower() + '.py')
        if os.path.exists(f):
            c = consts(f)
            checks.append(dict(property=p, quick_cmd='./check %s --tier quick' % p,
                               thorough_cmd='./check %s --tier thorough' % p,
                               evidence_file='evidence/%s.json' % p, technique=c.get('TECHNIQUE', TECH),
                               level=c.get('LEVEL', 'model_checking'), level_note=c.get('LEVEL_NOTE', NOTE)))
        else:
            na.append(dict(property=p, reason='check not built yet'))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


main()
