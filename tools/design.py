#!/usr/bin/env python3
"""writes /verif/DESIGN.md from tools/design_head.md, tools/design_props.txt, tools/design_tail.md, the harness comments,
properties.jsonl, known_findings.json, tools/costs.json (quick wall times), seeded/*/meta.json (planted bugs) and tools/missed.json (those not caught)"""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = f'{V}/tools'
rd = lambda f: open(f).read()
prose = {}
for b in re.split(r'^== ', rd(f'{T}/design_props.txt'), flags=re.M)[1:]: prose[b[:3]] = b[3:].strip()
cost = json.load(open(f'{T}/costs.json')) if os.path.exists(f'{T}/costs.json') else {}
missed = json.load(open(f'{T}/missed.json')) if os.path.exists(f'{T}/missed.json') else {}
catch = {}
for m in glob.glob(f'{V}/seeded/*/meta.json'):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); catch[n] = {'property': d['property'], 'needs': d['needs'], 'by': missed.get(n, d['property'] + ' quick')}
fi = json.load(open(f'{V}/known_findings.json')); o = [rd(f'{T}/design_head.md').rstrip(), '\n\n## 4. The properties, one by one\n']
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l); i = p['id']; h = rd(f'{V}/harness/{i}.cpp')
    o.append(f"\n### {i} — {p['title']}\n\n*Specified:* {p['statement']}\n")
    o.append(f"\n*Decided by:* {prose.get(i, '(missing)')}\n")
    o.append('\n*Entries:* ' + ', '.join(f'`{e}`' for e in re.findall(r'ENTRY\((\w+)\)', h)) + '\n')
    b = re.findall(r'^//@ bound (.*)$', h, re.M); a = re.findall(r'^//@ assume (.*)$', h, re.M)
    o.append('\n*Bounds:* ' + '; '.join(b) + '.\n' + (('\n*Assumed / outside:* ' + '; '.join(a) + '.\n') if a else ''))
    if i in cost: c = cost[i]; o.append(f"\n*Cost (quick, last recorded run):* {c['wall']} s, {c['paths']} paths, {c['checks']} assertions, {c['queries']} solver queries.\n")
    f = [k for k in fi if k['property'] == i]
    if f: o.append('\n*Defects found:*\n' + ''.join(f"- {'fixed in ' + k['commit'] if k['status'] == 'fixed' else 'RECORDED (not repaired)'}: {k['what']}\n" for k in f))
    s = [s for s, v in sorted(catch.items()) if v['property'] == i]
    if s: o.append('\n*Planted bugs:* ' + ', '.join(f'`{x}`' for x in s) + '\n')
o.append('\n' + rd(f'{T}/design_tail.md').rstrip() + '\n')
o.append('\n## 8. Planted bugs and what catches them\n\nEvery patch compiles, passes the stable tests and has a demonstration. "quick check" is the check of the property the bug breaks.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
for s, v in sorted(catch.items()): o.append(f"| `{s}` | {v['property']} | {v['needs']} | {v['by']} |\n")
open(f'{V}/DESIGN.md', 'w').write(''.join(o))
