#!/usr/bin/env python3
"""records a fix: fixed.py PROPERTY 'subject prefix of the fix commit' 'what failed'"""
import json, subprocess, sys
f = '/verif/known_findings.json'; L = json.load(open(f)); log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
p, pre, w = sys.argv[1:4]; h = next(h for h, s in log if s.startswith('fix: ' + pre)); L.append(dict(property=p, status='fixed', commit=h, what=w, line=f'fixed: property={p} {h} {w}')); json.dump(L, open(f, 'w'), indent=1); print(h)
