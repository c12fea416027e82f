#!/usr/bin/env python3
"""writes /verif/DESIGN.md: the text below plus the tables that follow from the sources (rules, seeded bugs, repairs)"""
import os, json, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/lib')
import rules
props = {json.loads(l)['id']: json.loads(l) for l in open(H + '/properties.jsonl')}
man = json.load(open(H + '/MANIFEST.json'))
out = [open(H + '/tools/design.head.md').read().rstrip(), '']
body = open(H + '/tools/design.props.md').read()
secs = dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## C\d\d\n|\Z)', body, re.S | re.M))
seeds = {}
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d))); seeds.setdefault(m['property'], []).append((d, m))
fixes = {}
for l in open(H + '/known-findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m: fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
out.append('# Properties\n')
for i, p in props.items():
    out.append('## %s — %s\n' % (i, p['title']))
    if i in rules.TABLE:
        fn, tech, expl = rules.TABLE[i]
        out.append('*Method:* %s.\n' % tech); out.append(expl + '\n')
        if i not in secs: print('no text for', i)
        out.append(secs.get(i, '').strip() + '\n')
        s = seeds.get(i, [])
        if s: out.append('*Planted bugs (all reported by `check.py %s`):* ' % i + '; '.join('`%s` (%s)' % (d, m['what_it_breaks']) for d, m in s) + '.\n')
    else:
        out.append('*Not applicable:* ' + next(x['reason'] for x in man['not_applicable'] if x['property'] == i) + '\n')
        if i in secs: out.append(secs[i].strip() + '\n')
    f = fixes.get(i, [])
    if f: out.append('*Defects repaired:* ' + '; '.join('%s (%s)' % (b, a) for a, b in f) + '.\n')
out.append(open(H + '/tools/design.tail.md').read())
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
