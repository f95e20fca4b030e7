#!/usr/bin/env python3
"""plant.py NAME...: makes the bug of tools/bugs.py in a scratch copy of /repo, builds, runs the stable tests and
the checks named there, and on a catch writes seeded/NAME with a demonstration built from the counterexample."""
import os, sys, subprocess, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from bugs import BUGS
S = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
REPO = os.environ.get('PLANT_REPO', '/repo')
for name in sys.argv[1:]:
    b = BUGS[name]
    w = '/tmp/plant_' + name
    shutil.rmtree(w, ignore_errors=True)
    S('cp -a %s %s && cd %s && git checkout -q -f HEAD' % (REPO, w, w))
    for f, old, new in b['edits']:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(old) != 1:
            print(name, 'EDIT NOT UNIQUE', f, t.count(old)); sys.exit(1)
        open(p, 'w').write(t.replace(old, new))
    patch = S('git diff', cwd=w).stdout
    built = [l.strip() for l in S("grep -oE 'src/[a-z_/0-9-]+\\.c' /opt/vp/cmake/CMakeLists.txt").stdout.split()]
    # compile (all touched files) with the stub headers; the stable tests run in the gate
    env = dict(os.environ, VT_REPO=w)
    res = []
    for pid, only in b['checks']:
        r = S('python3-vt vt/run.py %s %s' % (pid, '--only "%s"' % only if only else ''), cwd=V, env=env)
        res.append((pid, r.returncode))
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        e = [l for l in r.stdout.split('\n') if 'error' in l.lower()]
        print(name, pid, 'rc', r.returncode, v[:2], [x[:300] for x in e[:2]], flush=True)
        if r.returncode == 1 and v:
            rp = v[0].split('replay=')[1]; hn = os.path.basename(os.path.dirname(rp))
            out = os.path.join(V, 'seeded', name)
            shutil.rmtree(out, ignore_errors=True)
            fill = re.search(r'malloc_fill_byte=(\d+)', open(rp).read()).group(1)
            x = S('python3-vt tools/mkdemo.py %s %s %s %s' % (pid, hn, os.path.join(os.path.dirname(rp), 'input.txt'), out), cwd=V, env=dict(env, FILL=fill))
            if x.returncode: print(x.stderr[-500:])
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            json.dump(dict(property=b.get('property', pid), needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            a = S('bash %s/demo.sh' % out, cwd=REPO); c = S('bash %s/demo.sh' % out, cwd=w)
            print('   demo clean', a.returncode, a.stdout.strip()[-120:], '| patched', c.returncode, c.stdout.strip()[-160:], a.stderr[-200:])
            break
    if not any(r == 1 for _, r in res):
        os.makedirs('/tmp/missed', exist_ok=True); open('/tmp/missed/%s.diff' % name, 'w').write(patch)
        print(name, 'MISSED')
    shutil.rmtree(w, ignore_errors=True)
