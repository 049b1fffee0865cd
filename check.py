#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--entry H_x] [--keep]
Decides one property: compiles its harness against /repo's current sources to LLVM IR, lets llsym execute every entry
symbolically (Z3 decides every check over all inputs within the bounds), replays every counterexample on the natively
compiled code and reports the ones that reproduce."""
import sys, os, re, json, subprocess, tempfile, time, shutil, random, glob, fcntl, signal, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('LS_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def sh(cmd, timeout=None, env=None, cwd=None):
    """run in its own session; returns (rc, output); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout); return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate(); return None, out.decode('utf8', 'replace')

def setup():
    os.makedirs(f'{V}/build', exist_ok=True)
    with open(f'{V}/build/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        rc, out = sh(['bash', f'{V}/engine/build.sh'])
        if rc: print(out); sys.exit(2)
        rc, out = sh(['bash', f'{V}/compile.sh', '--rt'])
        if rc: print(out); sys.exit(2)

class Check:
    def __init__(self, prop, tier, only=None, keep=False):
        self.prop, self.tier, self.only, self.t0 = prop, tier, only, time.time()
        self.w = tempfile.mkdtemp(prefix=f'ls_{prop}_'); self.keep = keep
        self.src = f'{V}/harness/{prop}.cpp'; self.text = open(self.src).read()
        self.opts = {}; self.bounds = []; self.assum = []
        for m in re.finditer(r'^//@ (\S+)(.*)$', self.text, re.M):
            if m[1] == 'bound': self.bounds.append(m[2].strip())
            elif m[1] == 'assume': self.assum.append(m[2].strip())
            else: self.opts[m[1]] = dict(x.split('=', 1) for x in m[2].split())
        self.native = {}; self.nlock = threading.Lock(); self.msgs = []
        inc = open(f'{self.w}/all_dnn.inc', 'w')
        for f in sorted(glob.glob(f'{REPO}/source/dnn/*.cpp')): inc.write(f'#include "dnn/{os.path.basename(f)}"\n')
        inc.close(); inc = open(f'{self.w}/all_mw.inc', 'w'); inc.write('#include "all_dnn.inc"\n')
        for f in sorted(glob.glob(f'{REPO}/source/middleware/*.cpp')): inc.write(f'#include "middleware/{os.path.basename(f)}"\n')
        inc.close()
        self.flags = [f'-DTHOROUGH={1 if tier == "thorough" else 0}', f'-I{self.w}']
    def build_native(self, kind):
        with self.nlock:
            if kind in self.native: return self.native[kind]
            out = f'{self.w}/native_{kind}'
            fl = {'san': ['-O1', '-g1', '-fsanitize=address,float-cast-overflow,integer-divide-by-zero,return,unreachable,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DLS_SEQUENTIAL'],
                  'plain': ['-O1', '-g1', '-DLS_SEQUENTIAL'], 'tsan': ['-O1', '-g1', '-fsanitize=thread']}[kind]
            cmd = ['clang++-18', '-std=c++17', '-w', '-DENABLE_MLPACK=0', *fl, *self.flags, f'-I{V}/harness', f'-isystem{V}/model_common', f'-isystem{REPO}/source', self.src, f'{V}/native/ls_native.cpp', '-o', out, '-rdynamic', '-ldl', '-lpthread']
            rc, o = sh(cmd, 400)
            if rc != 0: self.msgs.append('native build failed: ' + o[-2000:]); out = None
            self.native[kind] = out; return out
    def run_native(self, kind, entry, ins, timeout=20, deriv=True):
        b = self.build_native(kind)
        if not b: return None, 'no native build'
        d = tempfile.mkdtemp(dir=self.w); f = f'{d}/in.txt'
        with open(f, 'w') as o:
            for n, k, v in ins: o.write(f'{n.replace(" ", "_") or "_"} {k} {v}\n')
        env = dict(os.environ, ASAN_OPTIONS='exitcode=103:detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_odr_violation=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=103:print_stacktrace=1', TSAN_OPTIONS='exitcode=103:halt_on_error=1')
        cmd = [b, entry, f] + (['deriv'] if 'sym::D(' in self.text or ' D(' in self.text else [])
        if kind == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=103', '--leak-check=no'] + cmd
        if kind == 'tsan': cmd = ['setarch', '-R'] + cmd
        os.makedirs(f'{d}/cwd'); r = sh(cmd, timeout, env, f'{d}/cwd'); shutil.rmtree(d, ignore_errors=True); return r
    def confirm(self, entry, v):
        """replay a counterexample on the compiled code; returns (inputs, description) when it reproduces"""
        rnd = random.Random(SEED); ins = v.get('in') or []; kind = v['kind']
        bad = lambda rc: rc is not None and rc not in (0, 77, 2)
        tries = [ins]
        if any(k == 'r' for _, k, _ in ins):
            for t in range(24):
                tries.append([[n, k, (x if k != 'r' else f'{rnd.randint(0, 999)}/1000' if 'unit' in n else f'{rnd.randint(-3000, 3000) if t % 3 else rnd.randint(1, 3000)}/1000')] for n, k, x in ins])
        if kind == 'uninit': builds = ['plain', 'san']
        elif kind == 'race': builds = ['tsan', 'san']
        else: builds = ['san', 'plain'] if kind == 'memory' else ['san']
        for b in builds:
            for i, t in enumerate(tries if kind not in ('uninit', 'race') else [ins] * (4 if kind == 'race' else 1)):
                rc, out = self.run_native(b, entry, t, 15 if b != 'plain' else 60)
                if rc is None and kind == 'hang': return t, b, 'does not terminate within 15 s'
                if bad(rc):
                    l = [x for x in out.split('\n') if re.search(r'LS_FAIL|LS_UNCAUGHT|exception:|ERROR: |runtime error|WARNING: Thread|== (Cond|Use|Inv)', x)]
                    return t, b, (' '.join(l[:2]) or f'exit {rc}')[:300]
                if kind == 'hang' and i > 2: break
                if rc is None and i > 1: break
        return None
    def run(self):
        ex = ThreadPoolExecutor(6); nat = ex.submit(self.build_native, 'san')
        bc = f'{self.w}/h.bc'
        rc, out = sh(['bash', f'{V}/compile.sh', self.src, bc, *self.flags], 600)
        if rc != 0: print(f'harness {self.prop} does not compile against the current tree:\n' + '\n'.join(l for l in out.split('\n') if 'error' in l)[:4000]); ex.shutdown(); self.cleanup(); sys.exit(2)
        rc, out = sh(['llvm-nm-18', '--defined-only', bc]); entries = sorted(l.split()[-1] for l in out.split('\n') if re.search(r' [TtWw] H_', l))
        if self.only: entries = [e for e in entries if e in self.only]
        res = {}
        par = int(re.search(r'^//@parallel (\d+)', self.text, re.M)[1]) if re.search(r'^//@parallel (\d+)', self.text, re.M) else 4
        T = self.tier == 'thorough'
        def one(e):
            o = self.opts.get(e, {}); t = float(o.get('T' if T else 't', 2000 if T else 120)); of = f'{self.w}/{e}.jsonl'
            cmd = [f'{V}/build/llsym', bc, e, of, '-j', o.get('j', str(max(3, 9 // max(1, min(par, len(entries)))))), '-t', str(t), '-s', o.get('s', '6')]
            for k, f in (('i', '-i'), ('r', '-r'), ('f', '-f'), ('v', '-v'), ('a', '-a')):
                if k in o: cmd += [f, o[k]]
            rc, out = sh(cmd, t + 120); ev = []
            for l in open(of, errors='replace') if os.path.exists(of) else []:
                try: ev.append(json.loads(l))
                except ValueError: pass
            res[e] = (rc, out, ev)
        with ThreadPoolExecutor(par) as p: list(p.map(one, entries))
        nat.result()
        return self.report(entries, res, ex)
    def report(self, entries, res, ex):
        st = dict(paths=0, forks=0, checks=0, checks_trivial=0, certs=0, certs_shared=0, queries=0, unsat=0, sat=0, unknown=0, inconclusive=0, unsupported=0, truncated=0, errors=0, insts=0); ss = 0.0; mx = 0.0
        funcs = set(); samples = []; unconf = []; viol = []; notes = []; perEntry = {}; replayJobs = []
        for e in entries:
            rc, out, ev = res[e]; reach = set(); stats = None
            for x in ev:
                if x['t'] == 'func': funcs.update(x['f'])
                elif x['t'] == 'reach': reach.add(x['label'])
                elif x['t'] == 'stats': stats = x
                elif x['t'] == 'sample': replayJobs.append((e, x))
                elif x['t'] in ('unsupported', 'inconclusive'): notes.append(f"{e}: {x['t']}: {x.get('msg')} at {x.get('where', '')[:200]}")
            if not stats: notes.append(f'{e}: engine gave no statistics (rc {rc}) {out[-300:]}'); st['errors'] += 1; stats = {}
            for k in st: st[k] += stats.get(k, 0)
            ss += stats.get('solver_s', 0); mx = max(mx, stats.get('max_query_s', 0))
            if 'end' not in reach: notes.append(f'{e}: end of the harness not reached')
            perEntry[e] = {k: stats.get(k) for k in ('paths', 'checks', 'queries', 'unsat', 'sat', 'unknown', 'solver_s', 'wall_s', 'truncated', 'unsupported', 'inconclusive')}; perEntry[e]['witness_reached'] = sorted(reach)
            for m in sorted(set(x.strip() for x in out.split('\n') if x.startswith('llsym:'))): notes.append(f'{e}: {m}')
        # model validation: concrete instances of explored paths, replayed on the compiled code
        def val(j):
            e, x = j; rc, out = self.run_native('san', e, x['in'])
            if rc == 77: return 'skip', None
            if rc != 0: return 'bad', f'{e}: sample replay ended with {rc}: {out[-300:]}'
            got = [l.split() for l in out.split('\n') if l.startswith('OBS ')]
            exp = x['obs']
            if len(got) != len(exp): return 'bad', f'{e}: sample observations differ: {got} vs {exp}'
            for g, w in zip(got, exp):
                try: a, b = float(g[2]), float(w[1])
                except ValueError: continue
                if a != b and not abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) and not (a != a or b != b): return 'bad', f'{e}: observation {g[1]}: compiled code {g[2]}, model {w[1]} for {x["in"]}'
            return 'ok', None
        val_res = list(ex.map(val, replayJobs)) if self.native.get('san') else []
        nok = sum(1 for r in val_res if r[0] == 'ok'); bad = [r[1] for r in val_res if r[0] == 'bad']
        samples = [dict(entry=e, inputs=x['in'][:60], inputs_total=len(x['in']), observed=x['obs']) for e, x in replayJobs][:12]
        jobs = [(e, x) for e in entries for x in res[e][2] if x['t'] == 'violation']
        known = [k for k in json.load(open(f'{V}/known_findings.json')) if k['property'] == self.prop and k.get('status') != 'fixed']
        tc = time.time(); conf1 = []
        def confirm(j):
            if time.time() - tc > 90 and (conf1 or time.time() - tc > 240): return None
            r = self.confirm(*j)
            if r: conf1.append(1)
            return r
        def isKnown(e, x): return next((k for k in known if k['entry'] == e and k['kind'] == x['kind'] and re.search(k['match'], x['msg'] + ' @ ' + x['where'])), None)
        seenKnown = {}; todo = []
        for e, x in jobs:
            k = isKnown(e, x)
            if k: seenKnown[k['what']] = True
            else: todo.append((e, x))
        conf = list(ex.map(confirm, todo[:60]))
        out = f'{V}/evidence/replay'; shutil.rmtree(f'{out}/{self.prop}', ignore_errors=True); shown = {}
        for (e, x), c in zip(todo, conf):
            d = f"{e} [{x['kind']}] {x['msg']} at {x['where'][:300]}"
            if not c: unconf.append(d + ' inputs ' + json.dumps(x.get('in'))[:400]); continue
            key = (e, x['kind'], x['msg'], x['where']); 
            if key in shown: continue
            shown[key] = 1; os.makedirs(f'{out}/{self.prop}', exist_ok=True); p = f'{out}/{self.prop}/{len(shown)}.json'
            json.dump(dict(property=self.prop, entry=e, kind=x['kind'], message=x['msg'], where=x['where'], note=x.get('note'), inputs=c[0], build=c[1], observed=c[2], tier=self.tier), open(p, 'w'), indent=1)
            viol.append((p, d, c[2]))
        ex.shutdown()
        for k in known: print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for p, d, o in viol[:8]: print(f'VIOLATION property={self.prop} replay={p}\n  {d}\n  observed: {o}')
        os.makedirs(f'{V}/evidence', exist_ok=True); wall = time.time() - self.t0
        evd = dict(property=self.prop, tier=self.tier, seed=SEED, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
            assumptions=self.assum + ['doubles are modelled as exact real numbers (rounding, overflow and NaN are outside); integers, pointers and memory are exact', 'iostreams, regex, filesystem, <random> and the thread pool are replaced by models written in C++ (model/, model_common/)'],
            coverage=dict(states=max(st['paths'], 0), transitions=st['forks'], traces_validated_against_impl=nok, samples=samples or [dict(note='no completed path')],
                bounds=self.bounds, functions_encoded=sorted(funcs), checks=st['checks'], checks_on_conditions_already_constant_on_their_path=st['checks_trivial'], path_certificate_queries=st['certs'], path_certificates_already_answered=st['certs_shared'], queries=st['queries'], unsat=st['unsat'], sat=st['sat'], solver_unknown=st['unknown'], solver_s=round(ss, 2), max_query_s=round(mx, 3), inconclusive=st['inconclusive'], paths_with_unsupported_operation=st['unsupported'], entries_stopped_by_deadline=st['truncated'], engine_errors=st['errors'], instructions=st['insts'],
                entries=perEntry, model_mismatches=bad[:10], unconfirmed_counterexamples=unconf[:10], notes=(notes + self.msgs)[:40], known_findings_seen=sorted(seenKnown), exhaustive=bool(st['paths']) and not (st['unsupported'] or st['inconclusive'] or st['truncated'] or st['errors'])))
        json.dump(evd, open(f'{V}/evidence/{self.prop}.json', 'w'), indent=1)
        print(f"{self.prop} {self.tier}: {st['paths']} paths, {st['checks']} checks, {st['queries']} queries ({st['unsat']} unsat, {st['sat']} sat, {st['unknown']} unknown), solver {ss:.1f}s, {nok}/{len(val_res)} samples replayed, {len(unconf)} unconfirmed, {len(bad)} mismatches, {st['inconclusive']} inconclusive, {st['unsupported']} unsupported, {st['truncated']} truncated, wall {wall:.1f}s")
        for n in (notes + self.msgs + bad + ['unconfirmed: ' + u for u in unconf])[:25]: print('  note:', n[:700])
        self.cleanup(); return 1 if viol else 0
    def cleanup(self):
        if not self.keep: shutil.rmtree(self.w, ignore_errors=True)
        else: print('kept', self.w)

if __name__ == '__main__':
    if sys.argv[1] == '--setup': setup(); sys.exit(0)
    tier = 'quick'; only = None; keep = False; a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--entry': only = a.pop(0).split(',')
        elif x == '--keep': keep = True
    setup(); sys.exit(Check(sys.argv[1], tier, only, keep).run())
