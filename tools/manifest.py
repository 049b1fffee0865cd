#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
na = json.load(open(f'{V}/tools/not_applicable.json'))
checks, nal = [], []
for p in props:
    h = f"{V}/harness/{p['id']}.cpp"
    if p['id'] in na: nal.append(dict(property=p['id'], reason=na[p['id']])); continue
    if not os.path.exists(h): nal.append(dict(property=p['id'], reason='harness not built yet')); continue
    t = open(h).read(); b = '; '.join(m[1].strip() for m in re.finditer(r'^//@ bound (.*)$', t, re.M)); a = '; '.join(m[1].strip() for m in re.finditer(r'^//@ assume (.*)$', t, re.M))
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique='symbolic execution of the LLVM IR of the real sources, assertions decided by Z3 (llsym), counterexamples replayed on the compiled code', level='model_checking',
        level_note=('Bounds: ' + b + '. ' + (('Assumed: ' + a + '. ') if a else '') + 'Doubles are exact reals; standard streams, regex, <random> and the thread pool are models.')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=nal), open(f'{V}/MANIFEST.json', 'w'), indent=1)
