#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/meta.py and the registry sa/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
import meta
from sa.props import PROPS


def prop(d):
    a = {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']]}
    if d['state']:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in d['state']]
    assert len(d['title']) <= 80, (d['id'], len(d['title']))
    return {'id': d['id'], 'title': d['title'], 'statement': d['statement'],
            'quantifier': {'over': d['over'], 'text': d['q']}, 'why_tests_cant': d['why'], 'anchors': a}


ids = [d['id'] for d in meta.M + meta.NA]
assert len(ids) == len(set(ids)), 'duplicate id'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in sorted(meta.M + meta.NA, key=lambda d: d['id']):
        f.write(json.dumps(prop(d)) + '\n')
checks, nas = [], []
for d in sorted(meta.M, key=lambda d: d['id']):
    if d['id'] in PROPS:
        checks.append({'property': d['id'], 'quick_cmd': 'python3 check.py %s' % d['id'],
                       'thorough_cmd': 'python3 check.py %s --thorough' % d['id'],
                       'technique': d['tech'], 'level': 'other', 'level_note': d['note']})
    else:
        nas.append({'property': d['id'], 'reason': 'No check built yet.'})
for d in meta.NA:
    nas.append({'property': d['id'], 'reason': d['reason']})
for k in PROPS:
    assert k in ids, k
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --self-test', 'checks': checks, 'not_applicable': nas}, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(ids), len(checks), len(nas)))

import glob, re
from collections import Counter
cnt, tot = [], Counter()
for f in sorted(glob.glob(os.path.join(V, 'tools/mutants/*.txt'))):
    c = Counter(x.split(':')[2].strip() for x in open(f) if x.startswith('## ') and x.count(' : ') >= 3)
    tot += c
    cnt.append('%s (%d bad, %d ok)' % (os.path.basename(f)[:-4], c['bad'], c['ok']))
seeded = []
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    d = json.load(open(f))
    seeded.append('  * `%s` (%s): %s; needs: %s' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs']))
fixes = ['* `%s` (%s) %s' % (h, p, t) for p, h, t in re.findall(r'^fixed: property=(\S+) (\S+) (.*)$', open(os.path.join(V, 'KNOWN_FINDINGS.txt')).read(), re.M)]
pr = []
for d in sorted(meta.M + meta.NA, key=lambda d: d['id']):
    pr.append('### %s %s\n' % (d['id'], d['title']))
    if d['id'] in PROPS:
        P = PROPS[d['id']]
        rules = {}
        for j in P.jobs:
            r, _, e = j.name.partition('(')
            rules.setdefault(r, []).append(e.rstrip(')'))
        pr.append('%s\n\nRules: %s.\n\nDecides: %s\n' % (P.what, '; '.join('`%s` over %s' % (r, ', '.join(x)) for r, x in rules.items()), d['note']))
    else:
        pr.append('Not applicable: %s\n' % d.get('reason', 'no check built yet.'))
t = open(os.path.join(V, 'tools/design.md')).read()
for k, v in (('NMUT', str(sum(tot.values()))), ('MUT', ', '.join(cnt)), ('SEEDED', '\n'.join(seeded)), ('FIXES', '\n'.join(fixes)), ('PROPS', '\n'.join(pr))):
    t = t.replace('{{%s}}' % k, v)
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(t)
