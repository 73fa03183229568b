#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
INC = 'include/lexertl/'


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, state=None):
    a = {'files': [f if '/' in f and not f.startswith('parser/') else INC + f for f in files],
         'mechanism': [{'name': n, 'where': w if w.startswith('include') or w.startswith('gen_') else INC + w} for n, w in mech], 'hook_needed': None}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = state
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, technique, note))


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


AI = ('Path-partitioned abstract interpretation over the resolved AST (helpers inlined, loops as fixpoint partitions, symbolic Herbrand '
      'terms, no solver, nothing executed)')

exec(open(os.path.join(H, 'meta', 'list.py')).read())

P.sort(key=lambda p: p[0]['id'])
NA.sort(key=lambda x: x['property'])
ids = [p[0]['id'] for p in P]
assert len(set(ids)) == len(ids), ids
for p, t, n in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    assert p['statement'].count('. ') <= 2, p['id']
have = {os.path.basename(f).split('_')[0].upper() for f in glob.glob(os.path.join(H, 'checks', 'c[0-9]*_*.py'))}
nas = {x['property'] for x in NA}
out = [p for p in P if p[0]['id'] in have or p[0]['id'] in nas]
missing = [p[0]['id'] for p in P if p[0]['id'] not in have and p[0]['id'] not in nas]
if missing:
    print('no check and not NA yet (left out):', missing)
for i in nas:
    assert i not in have and i in ids, i
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p, t, n in out:
        f.write(json.dumps(p) + '\n')
checks = []
for p, t, n in out:
    i = p['id']
    if i in nas:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 run_check.py %s quick' % i, 'thorough_cmd': 'python3 run_check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NA,
           'notes': 'Static analysis only: every check dumps the type-checked program of /repo/include with clang and decides its rules '
                    'on that; nothing of lexertl17 is run. No hooks in /repo.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
import sys
sys.path.insert(0, os.path.join(H, 'meta'))
from design import design
open(os.path.join(H, 'DESIGN.md'), 'w').write(design(H, out, NA))
