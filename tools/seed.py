#!/usr/bin/env python3
# Plants a bug: seed.py SPEC.py ; SPEC defines id, prop, edits=[(file, old, new)...], needs, breaks, demo (C++ main body file text), dnn=False
# Writes /verif/seeded/<id>/ and confirms in a scratch copy that the demo passes without and fails with the change.
import sys, os, json, shutil, subprocess
S = {}; exec(open(sys.argv[1]).read(), S)
sid = S['id']; out = f'/verif/seeded/{sid}'; os.makedirs(out, exist_ok=True)
scratch = '/tmp/w/rs'
subprocess.run(['rm', '-rf', '/tmp/w/rs']); subprocess.run(['git', 'clone', '-q', '/repo', scratch], check=True)
for f, old, new in S['edits']:
    p = f'{scratch}/{f}'; t = open(p).read()
    n = t.count(old)
    if n != 1: sys.exit(f'{f}: {n} occurrences of {old!r}')
    open(p, 'w').write(t.replace(old, new))
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
for f, old, new in S['edits']: # the edited lines must be those of the original repository
    o = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{f}'], capture_output=True, text=True).stdout
    for l in set(old.split('\n')) - set(new.split('\n')):
        if l.strip() and l not in o.split('\n') and not any(l in x for x in o.split('\n')): print('  not an original line:', l)
d = subprocess.run(['git', '-C', scratch, 'diff'], capture_output=True, text=True).stdout
open(f'{out}/patch.diff', 'w').write(d)
open(f'{out}/demo.cpp', 'w').write(S['demo'])
json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
dnn = S.get('dnn', False)
if dnn:
    os.makedirs(f'{out}/betterthreads', exist_ok=True)
    shutil.copy('/verif/tools/demo_task_manager.hpp', f'{out}/betterthreads/task_manager.hpp')
srcs = S.get('sources', 'source/dnn/*.cpp source/middleware/*.cpp' if dnn else 'source/parser/parser.cpp')
open(f'{out}/demo.sh', 'w').write(f'''#!/bin/bash
# run in the repository: exit 0 when the property holds on the demonstrated case
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
rm -rf /tmp/el_demo_{sid}; mkdir -p /tmp/el_demo_{sid}
F="-std=c++17 -w -O0 {'-DENABLE_MLPACK=0 ' if dnn else ''}-I$d -I$r/source"
ls $d/demo.cpp {' '.join('$r/' + s for s in srcs.split())} | xargs -P8 -I{{}} sh -c "g++ $F -c {{}} -o /tmp/el_demo_{sid}/\\$(basename {{}}).o" || exit 99
g++ /tmp/el_demo_{sid}/*.o -o /tmp/el_demo_{sid}/demo -lpthread || exit 98
cd /tmp/el_demo_{sid} && timeout 60 ./demo; rc=$?
cd / ; rm -rf /tmp/el_demo_{sid}
exit $rc
''')
os.chmod(f'{out}/demo.sh', 0o755)
def demo(r):
    return subprocess.run(['bash', f'{out}/demo.sh'], cwd=r).returncode
a = demo('/repo'); b = demo(scratch)
print(sid, 'clean', a, 'patched', b, 'OK' if a == 0 and b not in (0, 98, 99) else 'BAD')
subprocess.run(['rm', '-rf', '/tmp/w/rs'])
