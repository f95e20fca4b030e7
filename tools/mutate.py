#!/usr/bin/env python3
"""mutate.py N SEED [ID...]: N random small mutations per property in its anchored functions; which does the check miss?
Writes /tmp/mut/<ID>-<k>.diff for the missed ones."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED, IDS = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
os.makedirs('/tmp/mut', exist_ok=True)
W = '/tmp/mutrepo%d' % SEED
shutil.rmtree(W, ignore_errors=True)
subprocess.run('git clone -q /repo %s' % W, shell=True, check=True)
def body(txt, fn):
    m = re.search(r'^(?:[A-Za-z_][\w \*]*[ \*\n])?%s\([^;{]*\)\s*\n?\{' % re.escape(fn), txt, re.M)
    if not m:
        return None
    e = txt.index('\n}', m.end())
    return m.end(), e
def muts(line):
    r = []
    if re.search(r'printf|LOG|PGOTO|FUNC_|^\s*(//|\*|/\*)|assert', line):
        return r
    for a, b in (('<=', '<'), (' < ', ' <= '), ('>=', '>'), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), ('&&', '||'), ('||', '&&'), (' + 1', ''), (' - 1', ''), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('[0]', '[1]'), ('[1]', '[0]'), ('[i]', '[0]'), ('[j]', '[0]'), (' = 0;', ' = 1;'), (' = 1;', ' = 0;'), ('true', 'false'), ('->next', ''), ('count', 'start'), ('start', 'count'), ('offset', 'size'), ('sizeof(uint64_t)', 'sizeof(uint32_t)')):
        for m in re.finditer(re.escape(a), line):
            r.append(line[:m.start()] + b + line[m.end():])
    if re.match(r'^\s+[\w\->\.\[\]\*]+\s*(=|\+=|-=)[^=].*;\s*$', line) or re.match(r'^\s+\w+\(.*\);\s*$', line):
        r.append(re.match(r'^\s*', line).group(0) + ';')
        r.append(re.match(r'^\s*', line).group(0) + ';')
    if re.match(r'^\s+(break|continue);', line):
        r.append(re.match(r'^\s*', line).group(0) + ';')
    return r
tot = dict(caught=0, missed=0, other=0)
for pid in IDS or sorted(d for d in os.listdir(V + '/harness') if os.path.exists('%s/harness/%s/property.json' % (V, d))):
    rnd = random.Random('%s-%d' % (pid, SEED))
    p = json.load(open('%s/harness/%s/property.json' % (V, pid)))
    cand = []
    for m in p['anchors']['mechanism']:
        f, fn = m['where'].rsplit(':', 1)
        txt = open(os.path.join(W, f), errors='replace').read()
        b = body(txt, fn)
        if not b:
            continue
        ls = txt.split('\n')
        l0, l1 = txt.count('\n', 0, b[0]), txt.count('\n', 0, b[1])
        c = [(f, fn, i, x) for i in range(l0 + 1, l1 + 1) for x in muts(ls[i])]
        if c:
            cand.append(c)
    for k in range(N):
        if not cand: break
        f, fn, i, x = rnd.choice(rnd.choice(cand))
        path = os.path.join(W, f)
        old = open(path).read()
        ls = old.split('\n'); was = ls[i]; ls[i] = x
        open(path, 'w').write('\n'.join(ls))
        t = time.time()
        try:
            rc = subprocess.run('python3-vt vt/run.py %s --jobs 6' % pid, shell=True, cwd=V, env=dict(os.environ, VT_REPO=W, VT_EVIDENCE='/tmp/mut'), capture_output=True, text=True, timeout=1500)
            r = rc.returncode; det = [l for l in rc.stdout.split('\n') if re.match(r'^(error|incon)', l)]
        except subprocess.TimeoutExpired:
            r, det = -1, []
        kind = {1: 'caught', 0: 'missed'}.get(r, 'other'); tot[kind] += 1
        print(kind, pid, fn, i + 1, '|', was.strip()[:90], '=>', x.strip()[:90], '%ds' % (time.time() - t), (det[0][:120] if det and r not in (0, 1) else ''), flush=True)
        if r == 0:
            open('/tmp/mut/%s-%d-%d.diff' % (pid, SEED, k), 'w').write(subprocess.run('git diff', shell=True, cwd=W, capture_output=True, text=True).stdout)
        open(path, 'w').write(old)
print(tot)
shutil.rmtree(W, ignore_errors=True)
