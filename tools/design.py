#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text + per-property paragraphs + bounds of the harnesses + table of seeded bugs."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
HOW = json.load(open(HERE + '/tools/how.json'))


def consts(f):
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS', 'REACH'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


out = [open(HERE + '/tools/design_head.md').read().rstrip(), '', '## 6. Property by property', '']
for p in props:
    f = glob.glob('%s/harness/%s_*.py' % (HERE, p['id'].lower()))[0]
    c = consts(f)
    h = HOW[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '',
            '*Decided by* `%s`. %s' % (os.path.relpath(f, HERE), h['how']), '',
            '*Oracle.* %s' % h['oracle'], '',
            '*Bounds.* %s.' % c['BOUNDS'], '']
    if c.get('ASSUMPTIONS'):
        out += ['*Assumed.* %s.' % '; '.join(c['ASSUMPTIONS']), '']
    out += ['*Beyond tests.* %s *Cost (8 cores).* %s' % (h['why'], h['cost']), '']
out += ['## 7. Seeded bugs', '', open(HERE + '/tools/design_seeded.md').read().rstrip(), '',
        '| bug | property | what it needs | caught by |', '|---|---|---|---|']
res = json.load(open(HERE + '/tools/seeded_results.json'))
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], res.get(d, '?')))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
