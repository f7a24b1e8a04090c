#!/usr/bin/env python3
"""Writes DESIGN.md (development aid)."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
out = [open(H + '/design/head.md').read()]
M = json.load(open(H + '/MANIFEST.json'))
C = {c['property']: c for c in M['checks']}
seeds = {}
for f in sorted(glob.glob(H + '/seeded/*/meta.json') + glob.glob(H + '/planted-more/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[-2], m))
selft = {}
for f in sorted(glob.glob(H + '/selftest/cases_*.py')):
    ns = {}
    exec(open(f).read(), ns)
    for c in ns['CASES']:
        for p in c[1]:
            selft.setdefault(p, {'V': 0, 'ok': 0})[c[2]] += 1
extra = {}
if os.path.exists(H + '/design/extra.md'):
    for part in re.split(r'^## ', open(H + '/design/extra.md').read(), flags=re.M)[1:]:
        k, t = part.split('\n', 1)
        extra[k.strip()] = t.strip()
out.append('## Properties\n')
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s — %s\n' % (i, p['title']))
    if i not in C:
        out.append('Not claimed: %s.\n' % [n['reason'] for n in M['not_applicable'] if n['property'] == i][0])
        continue
    out.append('Method: %s.\n\nCases: %s.\n\nRules:\n' % (C[i]['technique'], C[i]['level_note'].split(': ', 1)[1]))
    src = open(H + '/analyzer/rules/%s.py' % i.lower()).read()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) >= 2 and all(isinstance(a, ast.Constant) for a in n.args[:2]):
            out.append('* `%s`: %s' % (n.args[0].value, n.args[1].value))
    out.append('')
    if i in extra:
        out.append(extra[i] + '\n')
    s = selft.get(i, {'V': 0, 'ok': 0})
    ev = H + '/evidence/%s.json' % i
    out.append('Tried on %d breaking and %d behaviour-preserving edits (selftest). Planted bugs caught: %s.\n' % (s['V'], s['ok'], ', '.join('%s (%s)' % (a, b['what_it_breaks']) for a, b in seeds.get(i, [])) or 'none planted'))
out.append(open(H + '/design/tail.md').read())
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
