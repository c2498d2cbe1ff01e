#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the property modules."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
mods = [importlib.import_module('props.' + os.path.basename(f)[:-3]) for f in sorted(glob.glob(V + '/engine/props/c[0-9]*.py'))]
from props.na import NA
props, checks, na = [], [], []
for m in mods:
    P = m.PROP
    props.append({k: P[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    checks.append({'property': P['id'], 'quick_cmd': 'python3 check.py ' + P['id'], 'thorough_cmd': 'python3 check.py ' + P['id'],
                   'technique': P['technique'], 'level': P.get('level', 'other'), 'level_note': P['level_note']})
for P, reason in NA:
    props.append(P)
    na.append({'property': P['id'], 'reason': reason})
for p in props:
    assert len(p['title']) <= 80, p['id']
    n = len([s for s in p['statement'].split('. ') if s])
    assert n <= 3, (p['id'], n)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'One libTooling extractor and one abstract evaluator serve every check; see DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

# DESIGN.md: the hand-written head, then what the modules say
out = open(V + '/tools/design_head.md').read()
out += '| property | commit | what failed |\n|---|---|---|\n'
for l in open(V + '/known-findings.txt'):
    if l.startswith('fixed: property='):
        _, p, c, w = l.strip().split(' ', 3)
        out += '| %s | %s | %s |\n' % (p.split('=')[1], c, w)
out += '\n## 3. Properties and how each is decided\n'
for m in mods:
    P = m.PROP
    out += '\n### %s %s\n\n%s\n\n*Decided by*: %s\n\n*Rules*: %s. *Quantifies over*: %s.\n\n*Why tests cannot settle it*: %s\n' % (
        P['id'], P['title'], P['statement'], P['how'], ', '.join('`%s`' % r.__name__ for r in m.RULES), P['quantifier']['text'], P['why_tests_cant'])
if NA:
    out += '\n## 4. Not applicable\n\n'
    for P, reason in NA:
        out += '* **%s %s**: %s\n' % (P['id'], P['title'], reason)
out += '\n## 5. Planted bugs\n\nEach is confirmed in a scratch copy: it applies, builds, passes the 113 tests, and its demonstration fails with it and passes without it.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d))
    out += '| %s | %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), j['property'], j['what_it_breaks'], j['needs'], j.get('caught_by', j['property']))
tail = V + '/tools/design_tail.md'
if os.path.exists(tail):
    out += '\n' + open(tail).read()
open(V + '/DESIGN.md', 'w').write(out)
