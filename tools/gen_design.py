#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, the checks and the planted bugs."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from seeds import SEEDS
import seeds2, seeds3, seeds4, seeds5, seeds6, seeds7, seeds8, seeds9, seeds10  # noqa

out = [open(V + '/tools/design_head.md').read(), '\n## 3. Property by property\n']
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    f = V + '/checks/%s.py' % p['id'].lower()
    out.append('### %s %s\n' % (p['id'], p['title']))
    if not os.path.exists(f):
        out.append('Not claimed.\n')
        continue
    t = ast.parse(open(f).read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'BOUNDS', 'COST'):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                c[n.targets[0].id] = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    out.append(ast.get_docstring(t).partition(': ')[2].replace('\n\n', '\n', 1) + '\n')
    out.append('* deciding method: ' + c.get('TECHNIQUE', 'explicit-state model checking: all reachable states of the real collections against Python values'))
    out.append('* bounds (quick): ' + c['BOUNDS']['quick'])
    out.append('* bounds (thorough): ' + c['BOUNDS']['thorough'])
    for k in ('why_tests_cant',):
        if p.get(k):
            out.append('* beyond the tests: ' + p[k])
    if 'COST' in c:
        out.append('* cost: ' + c['COST'])
    out.append('')
out.append(open(V + '/tools/design_tail.md').read())
res = {}
if os.path.exists(V + '/tools/seed_results.json'):
    res = json.load(open(V + '/tools/seed_results.json'))
out.append('\n| planted bug | property | needs | caught by |\n|---|---|---|---|')
for s in SEEDS:
    out.append('| %s | %s | %s | %s |' % (s['id'], s['prop'], s['needs'].replace('|', '/'), res.get(s['id'], 'not run')))
out.append(open(V + '/tools/design_end.md').read() if os.path.exists(V + '/tools/design_end.md') else '')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
