#!/usr/bin/env python3
# Writes MANIFEST.json from checks/*.py and tools/na.json (properties not claimed, with reasons).
import json, os, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/tools/na.json'))
hooks = json.load(open(V + '/tools/hooks.json'))
checks = []; missing = []
for p in props:
    f = V + '/checks/%s.py' % p['id']
    if os.path.exists(f):
        ns = {}; exec(open(f).read(), ns); s = ns['SPEC']
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
            technique='symbolic execution of the LLVM bitcode of /repo (engine/ksym) with z3 (QF_BV) deciding every branch, memory-access and assertion query; counterexamples replayed against an AddressSanitizer build of the real code',
            level='model_checking', level_note=('Bounded: ' + s.get('bounds', '') + '. Outside: ' + s.get('outside', 'stated in DESIGN.md'))[:1500], evidence_file='evidence/%s.json' % p['id']))
    elif p['id'] not in na: missing.append(p['id'])
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', hooks=hooks, checks=checks,
    not_applicable=[dict(property=p['id'], reason=na.get(p['id'], 'check not built yet')) for p in props if not os.path.exists(V + '/checks/%s.py' % p['id'])]), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks; not built:', missing)
