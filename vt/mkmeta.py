#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from harness/<id>/property.json (claimed when a spec.py
lies beside it) and vt/unclaimed.json (properties stated but not claimed, with the reason)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for pid in sorted(os.listdir(os.path.join(V, 'harness'))):
    f = os.path.join(V, 'harness', pid, 'property.json')
    if not os.path.exists(f):
        continue
    p = json.load(open(f))
    assert p['id'] == pid and len(p['title']) <= 80, pid
    note = p.pop('level_note')
    props.append(p)
    checks.append(dict(property=pid, quick_cmd='python3 vt/run.py %s --tier quick' % pid,
                       thorough_cmd='python3 vt/run.py %s --tier thorough' % pid,
                       technique='bounded symbolic execution of the real C code (CBMC with a SAT solver, or path-wise LLVM-IR execution with Z3), counterexamples and witnesses replayed on the gcc build',
                       level='model_checking', level_note=note))
u = os.path.join(V, 'vt/unclaimed.json')
if os.path.exists(u):
    for p in json.load(open(u)):
        r = p.pop('reason')
        props.append(p)
        na.append(dict(property=p['id'], reason=r))
props.sort(key=lambda p: p['id'])
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
json.dump(dict(version=1, setup_cmd='bash vt/setup.sh', checks=checks, not_applicable=na,
               notes='Every check: goto-cc of harness + /repo sources, CBMC over all values within the stated bounds, replay on gcc+ASan. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'claimed')
