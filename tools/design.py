#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_text.md, then per property what its check says of itself, then findings and planted
bugs. tools/seeded.py --save keeps who catches what in tools/caught.json."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
M = json.load(open(HERE + '/MANIFEST.json'))
TECH = {c['property']: c['technique'] for c in M['checks']}
NA = {c['property']: c['reason'] for c in M['not_applicable']}


def consts(i):
    src = open(os.path.join(HERE, 'checks', i + '.py')).read()
    t = ast.parse(src)
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign)
         and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'LEVEL_NOTE', 'MIN_EVENTS')}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'WORKLOADS':
            d['W'] = [(c.args[0].value, ast.literal_eval(c.args[2]), ast.literal_eval(c.args[3])) for c in n.value.elts]
    return d


out = [open(HERE + '/tools/design_text.md').read().rstrip(), '', '## Properties', '']
for p in P:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    if i in NA:
        out += ['**Not applicable.** ' + NA[i], '']
        continue
    c = consts(i)
    out += ['- **Decided by:** %s — %s.' % (TECH[i], c['LEVEL_NOTE']),
            '- **Generated:** ' + c['RULE'],
            '- **Quantifier, and why tests cannot settle it:** %s. %s' % (p['quantifier']['text'], p['why_tests_cant']),
            '- **Assumes:** ' + ('; '.join(c['ASSUMPTIONS']) or 'nothing beyond the API') + '.',
            '- **Bounds (cases quick/thorough):** ' + ', '.join('%s %d/%d' % w for w in c['W']) + '.',
            '- **Inconclusive unless observed:** ' + ', '.join('%s ≥ %d' % x for x in sorted(c['MIN_EVENTS'].items())) + '.',
            '- **Anchors:** ' + '; '.join('`%s`' % m['where'] for m in p['anchors']['mechanism']) + '.', '']
F = json.load(open(HERE + '/known_findings.json'))['findings']
out += ['## Genuine defects recorded, not repaired', '']
out += ['- **%s %s**: %s. Not repaired: %s.' % (f['property'], f['mechanism'], f['what'], f['why_not_repaired'])
        for f in F if f['status'] == 'open']
out += ['', '## Genuine defects repaired (one `fix:` commit each)', '']
out += ['- ' + f['line'] for f in F if f['status'] == 'fixed']
out += ['', '## Planted bugs and who catches them', '',
        'Each lies in `seeded/<id>/` and was confirmed in a scratch copy: it passes the stable tests, its demonstration '
        'fails with it and passes without it. Quick checks, seed 1.', '',
        '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(HERE + '/tools/caught.json')) if os.path.exists(HERE + '/tools/caught.json') else {}
for b in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % b))
    out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/'),
                                             m['needs'].replace('|', '/'), ' '.join(caught.get(b, ['?'])) or '**missed**'))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
