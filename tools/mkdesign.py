#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, sys, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vt'))
o = [open(os.path.join(V, 'tools/design_head.md')).read()]
seeded = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    j = json.load(open(m)); seeded.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
kf = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
o.append('\n## Properties\n')
for d in sorted(os.listdir(os.path.join(V, 'harness'))):
    pj = os.path.join(V, 'harness', d, 'property.json')
    if not os.path.exists(pj):
        continue
    p = json.load(open(pj))
    sp = importlib.util.spec_from_file_location('spec_' + d, os.path.join(V, 'harness', d, 'spec.py'))
    s = importlib.util.module_from_spec(sp); sp.loader.exec_module(s)
    o.append('### %s %s\n\n%s\n\n%s\n\nWhy tests cannot: %s\n' % (d, p['title'], p['statement'], p['level_note'], p['why_tests_cant']))
    o.append('Harnesses (engine; bounds):\n')
    for h in s.HARNESSES:
        o.append('* `%s`%s (%s): %s' % (h['name'], ' thorough' if h.get('tier') == 'thorough' else '', 'path-wise' if h.get('engine') == 'sym' else 'CBMC', h.get('bounds', '') or 'see source'))
    repo = sorted({r for h in s.HARNESSES for r in h.get('repo', []) if not r.startswith('wrap:')})
    o.append('\nSources executed: ' + ', '.join(r.replace('src/', '', 1) for r in repo) + (' and those included by wrappers' if any(r.startswith('wrap:') for h in s.HARNESSES for r in h.get('repo', [])) else '') + '.')
    if getattr(s, 'ASSUMPTIONS', None):
        o.append('\nAssumptions: ' + '; '.join(s.ASSUMPTIONS) + '.')
    if getattr(s, 'OUTSIDE', ''):
        o.append('\nOutside the bounds: ' + s.OUTSIDE + '.')
    if seeded.get(d):
        o.append('\nPlanted bugs caught: ' + '; '.join('`%s` (%s)' % (n, j['what_it_breaks']) for n, j in seeded[d]) + '.')
    o.append('')
u = os.path.join(V, 'vt/unclaimed.json')
if os.path.exists(u):
    o.append('## Not applicable: the properties\n')
    for p in json.load(open(u)):
        o.append('* %s %s: %s' % (p['id'], p['title'], p['reason']))
    o.append('')
o.append('## Findings\n\nKnown (not repaired):\n')
o += ['* %s (probe `%s`): %s' % (k['property'], k['harness'], k['entry']) for k in kf if k.get('status') == 'known']
o.append('\nRepaired:\n')
o += ['* ' + k['entry'].replace('fixed: property=', '') for k in kf if k.get('status') == 'fixed']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
