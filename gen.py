#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
import props, checks
V = os.path.dirname(os.path.abspath(__file__))
ids = [p['id'] for p in props.PROPS]; assert len(set(ids)) == len(ids)
for p in props.PROPS: assert len(p['title']) <= 80, p['id']
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS: f.write(json.dumps(p) + '\n')
na = dict(props.NA); claimed = [i for i in ids if i in checks.PROPS and i not in na]
missing = [i for i in ids if i not in checks.PROPS and i not in na]
for i in missing: na[i] = 'no check built yet'
TECH = 'solver-based symbolic execution of the real LLVM IR (z3 decides every branch and assertion), counterexamples replayed natively'
man = dict(version=1, setup_cmd='python3 run.py --setup', checks=[dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking',
    level_note='Bounded: ' + '; '.join('%s: %s' % (h.get('name', h['src']), h['bounds']) for h in checks.PROPS[i]['harnesses'] if h.get('bounds')) + '. Real arithmetic without rounding; counterexamples are confirmed natively in IEEE doubles. Trusts clang, the instrumentation pass and runtime under engine/, z3.') for i in claimed],
    not_applicable=[dict(property=i, reason=r) for i, r in na.items()])
with open(V + '/MANIFEST.json', 'w') as f: json.dump(man, f, indent=1); f.write('\n')
print(len(claimed), 'claimed,', len(na), 'not applicable')
# DESIGN.md = head + generated per-property notes + tail
import glob, re
out = [open(V + '/DESIGN.head.md').read()]
def bnd(h): return '%s (`harness/%s`): %s%s' % (h.get('name', h['src']), h['src'], h.get('bounds', ''), '; quick %s, thorough %s' % (' '.join(h.get('quick', [])) or '-', ' '.join(h.get('thorough', [])) or '-'))
for p in props.PROPS:
    i = p['id']; out.append('### %s %s\n%s\n' % (i, p['title'], p['statement']))
    if i in na: out.append('Not applicable: %s\n' % na[i]); continue
    c = checks.PROPS[i]; tus = sorted({t for h in c['harnesses'] for t in h['tus']})
    out.append('*Decided by* symbolic execution of %s; anchored in %s. *Oracle*: %s *Bounds*:' % (', '.join(m['where'].replace('src/Meshing/', '') for m in p['anchors']['mechanism']), ', '.join(p['anchors']['files']), props.ORACLE.get(i, 'an independent brute-force formulation of the statement inside the harness.')))
    for h in c['harnesses']: out.append('- ' + bnd(h))
    out.append('')
t = open(V + '/DESIGN.tail.md').read()
t = t.replace('FINDINGS', '\n'.join('- ' + l.strip() for l in open(V + '/KNOWN_FINDINGS.txt') if l.strip() and not l.startswith('#')))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(V + '/caught.json')) if os.path.exists(V + '/caught.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d)); rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], caught.get(n, 'not yet run')))
out.append(t.replace('SEEDED', '\n'.join(rows)))
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
