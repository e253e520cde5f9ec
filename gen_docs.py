#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, the results are committed)."""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, quant, why, files, mech, observe, note, level='other'):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)), level, note))
exec(open(os.path.join(R, 'properties_src.py')).read())
done = set(p[0]['id'] for p in P)
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p, l, n in P: f.write(json.dumps(p) + '\n')
na = dict(NA)
m = dict(version=1, setup_cmd='make -s -j8 -C engine', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA])
for p, l, n in P:
    if p['id'] in na: continue
    m['checks'].append(dict(property=p['id'], quick_cmd='./check.py %s' % p['id'], thorough_cmd='./check.py %s --tier thorough' % p['id'], technique='symbolic execution of the compiled headers (LLVM IR), obligations decided by SMT normalisation, linear algebra and SAT', level=l, level_note=n))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
# DESIGN.md
import sys; sys.path.insert(0, R)
import units as U, glob
t = open(os.path.join(R, 'DESIGN.in.md')).read()
HOW = globals().get('HOW', {})
s = '## 3. Properties\n'
for p, l, n in P:
    i = p['id']; s += '\n### %s %s\n\n%s\n\n' % (i, p['title'], p['statement'])
    if i in na: s += 'Not applicable: %s\n' % na[i]; continue
    s += '*Decided by:* %s\n\n*Why tests cannot:* %s.\n\n*Bounds:* %s.\n\n' % (HOW.get(i, 'harness assertion over symbolic inputs'), p['why_tests_cant'], n)
    us = U._U[i]; s += '*Units (%d quick, %d more in thorough):* ' % (sum(u['tier'] == 'q' for u in us), sum(u['tier'] != 'q' for u in us))
    s += '; '.join('`%s`%s %s' % (u['name'], ' (thorough)' if u['tier'] != 'q' else '', (u["bounds"] or "configuration " + ", ".join("%s=%s" % kv for kv in u["defs"].items()))) for u in us) + '\n'
t = t.replace('@@TABLE@@', s)
t = t.replace('@@DEFECTS@@', '\n'.join('* ' + x.strip() for x in open(os.path.join(R, 'known_findings.txt')) if x.strip() and x[0] != '#') + '\n' + open(os.path.join(R, 'defects.md')).read())
rows = ['| id | property | needs | caught |', '|---|---|---|---|']
caught = dict(l.split(None, 1) for l in open(os.path.join(R, 'seed_results.txt')) if l.strip()) if os.path.exists(os.path.join(R, 'seed_results.txt')) else {}
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d)); k = os.path.basename(os.path.dirname(d)); c = caught.get(k, '?').strip()
    rows.append('| %s | %s | %s | %s |' % (k, j['property'], j['needs'], c))
t = t.replace('@@SEEDS@@', '\n'.join(rows) + '\n')
open(os.path.join(R, 'DESIGN.md'), 'w').write(t)
