#!/usr/bin/env python3
"""mutate.py N SEED [FILE-REGEX]: small random changes to a scratch clone of /repo, each judged by the checks of the part it
touches; prints the survivors (to be looked at by hand: equivalent, outside the bounds, or a gap)."""
import random, re, subprocess, sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = os.environ.get('MUT_W', '/tmp/w/mut'); N = int(sys.argv[1]); rnd = random.Random(int(sys.argv[2])); fre = sys.argv[3] if len(sys.argv) > 3 else '.'
MAP = {'parser/type_checker.hpp': ['P01', 'P02'], 'parser/csv.hpp': ['P03', 'P04', 'P05'], 'parser/parser.hpp': ['P12', 'P09', 'P05', 'P13'], 'parser/json.hpp': ['P07', 'P06', 'P08', 'P34'], 'parser/mnist.hpp': ['P09', 'P10'], 'parser/cifar.hpp': ['P11'],
 'data/dataset.hpp': ['P13', 'P14', 'P15'], 'dnn/dense.cpp': ['P25', 'P34', 'P37'], 'dnn/convolutional.cpp': ['P26', 'P34', 'P37'], 'dnn/max_pooling.cpp': ['P27', 'P34'], 'dnn/avg_pooling.cpp': ['P27', 'P34'], 'dnn/pooling.cpp': ['P27', 'P34'], 'dnn/activation.cpp': ['P28', 'P34', 'P21'], 'dnn/dropout.cpp': ['P29', 'P34'], 'dnn/recurrent.cpp': ['P30', 'P34', 'P37'], 'dnn/concatenate.cpp': ['P31'],
 'dnn/dlgraph.cpp': ['P32', 'P33'], 'dnn/dlgraph.hpp': ['P32', 'P33'], 'dnn/model.cpp': ['P33', 'P34', 'P37', 'P35'], 'dnn/model.hpp': ['P33', 'P35'], 'dnn/loss.cpp': ['P22', 'P34'], 'dnn/mse_loss.cpp': ['P22'], 'dnn/cce_loss.cpp': ['P22'], 'dnn/gd_optimizer.cpp': ['P24'], 'dnn/adam_optimizer.cpp': ['P24'], 'dnn/optimizer.cpp': ['P24', 'P33'], 'dnn/layer.cpp': ['P25', 'P34', 'P32', 'P33'], 'dnn/feedforward.cpp': ['P25', 'P34', 'P33'],
 'middleware/fnn.hpp': ['P35', 'P36'], 'middleware/nn.hpp': ['P35'], 'middleware/layer_descriptor.cpp': ['P35'], 'middleware/layer_descriptor.hpp': ['P35']}
DL = [(r'arr_|dense|matarr', ['P16', 'P36']), (r'relu|elu|tanh|sigmoid', ['P20']), (r'softmax', ['P21']), (r'cross_entropy|squared', ['P22']), (r'max_and|argmax|\bmax\b|index_of', ['P23']), (r'cross_corr|kernel_slide', ['P17']), (r'pool', ['P18', 'P27']), (r'concat|separ|append|extract|axis', ['P19', 'P31']), (r'rand|pdf|init|unique|unif|normal', ['P37', 'P14']), ('', ['P17', 'P19', 'P18', 'P35', 'P34', 'P26'])]
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' \+= ', ' = '), (r' \+= ', ' -= '), (r' = ', ' += '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\bwidth\b', 'height'), (r'\bheight\b', 'width'), (r'\binput_', 'output_'), (r'\boutput_', 'input_'), (r'\brow', 'col'), (r'\bcol', 'row'), (r'\.front\(\)', '.back()'), (r'\.begin\(\)', '.end()'), (r'\bfrom\b', 'to'), (r'\bsrc\b', 'dst'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'^(\s*)([\w\[\]._>()*,& -]+ ?[-+*]?= [^;]*|[\w.>-]+\([^;]*\)|\+\+\w+|continue|break|return \*?\w+);$', r'\1;'), (r'if \((.*)\)$', r'if (!(\1))'), (r'\+\+(\w)', r'--\1'), (r'weights', 'biases'), (r'channels', 'width'), (r'static_cast<[\w:]+>\((\w+)\)', r'(\1 + 1)')]
def sh(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(W): sh('git', 'clone', '-q', '/repo', W)
sh('git', '-C', W, 'fetch', '-q', 'origin'); sh('git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD')
cand = []
for f in list(MAP) + ['dnn/dlmath.hpp']:
    p = f'{W}/source/{f}'
    if not os.path.exists(p) or not re.search(fre, f): continue
    L = open(p).read().split('\n'); com = False; fn = ''; skipfn = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('/*'): com = True
        if com:
            if '*/' in s: com = False
            continue
        m = re.search(r'([\w:~]+)\($|([\w:~]+)\(.*(const)? *[{]?$', s)
        if f.endswith('.cpp') and re.match(r'[A-Za-z]', l) or re.match(r'    (static|virtual|\w[\w:<>&* ]*) ?[\w:~]+\(', l) and not l.startswith('     '): 
            m = re.search(r'([\w:~]+)\(', l); fn = m[1] if m else fn
        if re.search(r'print|operator<<', fn) and 'json' not in f and 'operator<<' not in f or 'cout' in l or not s or s.startswith(('//', '#', 'template', 'namespace', 'using', 'throw', 'class', 'struct', '"', 'friend', 'const std::string')): continue
        if 'simd' in fn or 'static inline' in l: continue
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: cand.append((f, i, l, n, fn))
rnd.shuffle(cand); seen = set(); done = 0
log = open(os.environ.get('MUT_LOG', '/tmp/w/mut.jsonl'), 'a')
for f, i, l, n, fn in cand:
    if done >= N: break
    if (f, i) in seen: continue
    seen.add((f, i)); p = f'{W}/source/{f}'; t = open(p).read(); L = t.split('\n')
    if L[i] != l: continue
    L[i] = n; open(p, 'w').write('\n'.join(L)); ch = MAP.get(f) or next(c for r, c in DL if re.search(r, fn + ' ' + (l if r != '' else '')))
    res = []; st = 'survived'
    for c in ch:
        r = sh('timeout', '300', 'python3', f'{V}/check.py', c, env=dict(os.environ, LS_REPO=W)); res.append((c, r.returncode))
        if r.returncode == 1: st = 'caught'; break
        if r.returncode == 2: st = 'nocompile'; break
        if r.returncode not in (0, 1): st = 'noanswer'; break
        if re.search(r'[1-9]\d* unconfirmed', r.stdout): st = 'unconfirmed'
    open(p, 'w').write(t)
    if st != 'nocompile': done += 1
    rec = dict(file=f, line=i + 1, fn=fn, old=l.strip(), new=n.strip(), status=st, res=res); log.write(json.dumps(rec) + '\n'); log.flush()
    if st not in ('caught', 'nocompile'): print(f"{st} {f}:{i+1} [{fn}] {l.strip()}  ==>  {n.strip()}  {res}", flush=True)
print('done', done)
