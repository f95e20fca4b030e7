#!/usr/bin/env python3
"""Solver-based check driver:  vt/run.py <PROPERTY> [--tier quick|thorough] [--only NAME] [--keep]

For each harness of the property: compile harness + /repo's current sources with goto-cc, decide every
assertion with CBMC (all inputs within the stated bounds, unwinding assertions on), then
  * replay the reachability witness on the real gcc build (validates the encoding, guards vacuity);
  * on a counterexample, replay it on the real gcc build and report it only if it reproduces.
Exit 0 held, 1 VIOLATION, 3 inconclusive/broken check."""
import sys, os, glob, json, re, subprocess, time, shutil, argparse, importlib.util, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
MPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'
BUILD = os.path.join(VERIF, 'build')
SAFE_NOBODY = {'__builtin_unreachable', 'nondet_vt_u64'}

CONFIG_ON = {'ENABLE_MPI': '', 'PDC_SERVER_CACHE': '', 'PDC_ENABLE_CHECKPOINT': '', 'PDC_DART_SFX_TREE': '',
             'HAVE_ATTRIBUTE': '', 'HAVE_MALLOC_USABLE_SIZE': ''}


def sh(cmd, timeout=None, env=None, mem_gb=None, cwd=None):
    def lim():
        import resource
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=lim, cwd=cwd)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return -99, '', 'timeout', time.time() - t0


def gen_config(dst):
    """What cmake's configure_file makes of the two templates with the default settings of the build."""
    os.makedirs(dst, exist_ok=True)
    for src, out in (('pdc_config_sys.h.cmake', 'pdc_config_sys.h'), ('pdc_config.h.in', 'pdc_config.h')):
        txt = open(os.path.join(REPO, src)).read()
        o = []
        for line in txt.splitlines():
            m = re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)', line)
            if m:
                if m.group(2) in CONFIG_ON:
                    o.append('#define %s %s' % (m.group(2), CONFIG_ON[m.group(2)]))
                else:
                    o.append('/* #undef %s */' % m.group(2))
            else:
                o.append(line)
        open(os.path.join(dst, out), 'w').write('\n'.join(o) + '\n')


def include_dirs(cfg):
    inc = [os.path.join(VERIF, 'vt/include'), os.path.join(VERIF, 'vt/stubs/include'), cfg]
    dirs = set()
    for base in ('src/api', 'src/commons', 'src/server', 'src/utils', 'src/tools/cjson'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            if any(f.endswith('.h') for f in fs):
                dirs.add(d)
    inc += sorted(dirs) + [REPO, MPI_INC]
    return inc


def compile_cmd(h, inc, defs):
    c = []
    for d in inc:
        c += ['-I', d]
    for d in ['PDC_SERVER_CACHE_MAX_GB=3', 'PDC_SERVER_CACHE_FLUSH_TIME=30', 'VT=1'] + list(defs):
        c += ['-D' + d]
    return c + ['-std=gnu99', '-fcommon', '-w']


_eng = threading.Lock()


def engine():
    """The path-wise engine, built once per source text into /verif/build/engine."""
    with _eng:
        src = os.path.join(VERIF, 'engine', 'vtsym.cpp')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        d = os.path.join(BUILD, 'engine')
        b = os.path.join(d, 'vtsym-' + h)
        if not os.path.exists(b):
            os.makedirs(d, exist_ok=True)
            fl = sh(['llvm-config-18', '--cxxflags'])[1].replace('-fno-exceptions', '').replace('-fno-rtti', '').split()
            lib = sh(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader'])[1].split()
            rc, o, e, _ = sh(['g++', '-O2', '-std=c++17', '-w', src, '-o', b + '.tmp%d' % os.getpid()] + fl + lib + ['-lz3'], timeout=600)
            if rc:
                raise RuntimeError('building the engine: ' + e[-1500:])
            os.rename(b + '.tmp%d' % os.getpid(), b)
        return b


class Harness:
    def __init__(self, d, pdir, work, inc):
        self.d, self.pdir, self.inc = d, pdir, inc
        self.name = d['name']
        self.work = os.path.join(work, self.name)
        os.makedirs(self.work, exist_ok=True)
        self.defs = list(d.get('defs', []))
        self.src = [os.path.join(pdir, s) for s in ([d['src']] if isinstance(d['src'], str) else d['src'])]
        # 'wrap:x.c' is a file of the harness directory that #includes a source of the repository
        self.repo = [os.path.join(pdir, s[5:]) if s.startswith('wrap:') else os.path.join(REPO, s) for s in d.get('repo', [])]
        self.extra = [os.path.join(VERIF, s) for s in d.get('stubs', [])]
        self.status, self.detail = 'error', ''
        self.stats = {}
        self.replays = 0
        self.violation = None
        self.notes = []

    def goto_compile(self):
        objs = []
        bp = compile_cmd(self.d, self.inc, self.defs)
        for i, s in enumerate(self.src + self.repo + self.extra + [os.path.join(VERIF, 'vt/stubs/vt_cbmc.c')]):
            o = os.path.join(self.work, 'o%d.gb' % i)
            rc, out, err, _ = sh(['goto-cc', '-c', s, '-o', o] + bp, timeout=300)
            if rc != 0:
                return 'goto-cc %s: %s' % (s, (err + out)[-1500:])
            objs.append(o)
        # bodies that the harness replaces by stubs
        rm = self.d.get('replace', [])
        if rm:
            for i in range(len(self.src), len(self.src) + len(self.repo)):
                c = ['goto-instrument']
                for f in rm:
                    c += ['--remove-function-body', f]
                sh(c + [objs[i], objs[i]], timeout=300)
        self.gb = os.path.join(self.work, 'all.gb')
        rc, out, err, _ = sh(['goto-cc'] + objs + ['-o', self.gb, '--function', 'harness'], timeout=300)
        if rc != 0:
            return 'goto-cc link: ' + (err + out)[-1500:]
        return None

    # ---- path-wise engine (clang bitcode -> vtsym)
    def sym_compile(self):
        eng = engine()
        bcs = []
        bp = compile_cmd(self.d, self.inc, self.defs + ['VT_REPLAY=1', 'VT_SYM=1', '_FORTIFY_SOURCE=0'] + self.d.get('sym_defs', []))
        srcs = self.src + self.repo + self.extra + [os.path.join(VERIF, 'vt/stubs/symlibc.c')]
        for i, s in enumerate(srcs):
            o = os.path.join(self.work, 'b%d.bc' % i)
            rc, out, err, _ = sh(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin', '-emit-llvm', '-c', s, '-o', o] + bp, timeout=300)
            if rc:
                return 'clang %s: %s' % (s, err[-1500:])
            rm = self.d.get('replace', [])
            if rm and len(self.src) <= i < len(self.src) + len(self.repo):
                c = ['llvm-extract-18', '--delete', o, '-o', o + '.x']
                have = sh(['llvm-nm-18', '--defined-only', '-j', o])[1].split()
                rmh = [f for f in rm if f in have]
                if rmh:
                    rc, out, err, _ = sh(c + ['--func=' + f for f in rmh], timeout=120)
                    if rc:
                        return 'llvm-extract: ' + err[-500:]
                    os.rename(o + '.x', o)
            bcs.append(o)
        self.bc = os.path.join(self.work, 'all.bc')
        rc, out, err, _ = sh(['llvm-link-18'] + bcs + ['-o', self.bc + '.0'], timeout=300)
        if rc:
            return 'llvm-link: ' + err[-1500:]
        rc, out, err, _ = sh(['opt-18', '-passes=internalize,globaldce,function(mem2reg,simplifycfg)', '-internalize-public-api-list=harness',
                              self.bc + '.0', '-o', self.bc], timeout=300)
        if rc:
            return 'opt: ' + err[-1500:]
        return None

    def run_sym(self, budget):
        e = self.sym_compile()
        if e:
            self.status, self.detail = ('skipped' if self.d.get('optional') else 'error'), e
            return
        tmo = int(min(self.d.get('timeout', 300), budget))
        out = os.path.join(self.work, 'sym.json')
        nw = self.d.get('workers', 4)
        rc, o, err, wall = sh([engine(), self.bc, '--out', out, '--time', str(tmo), '--workers', str(nw)], timeout=tmo + 130, mem_gb=self.d.get('mem_gb', 8))
        parts = sorted(glob.glob(out + '.*'))
        if rc != 0 or not parts:
            self.status, self.detail = 'inconclusive', 'engine rc=%s %s %s' % (rc, o[-500:], err[-800:])
            return
        rs = [json.load(open(p)) for p in parts]
        st = self.stats
        for k in ('paths', 'reached', 'assumed_away', 'forks', 'instructions', 'queries', 'sat', 'unsat', 'cache_hits', 'solver_s', 'checks', 'checks_by_solver'):
            st[k] = sum(r[k] for r in rs)
        st['engine'] = 'vtsym'
        self.d['functions'] = sorted({f for r in rs for f in r['functions'] if not f.startswith('vt_') and f != 'harness'})
        viols, seen = [], set()
        for r in rs:
            for v in r['violations']:
                key = v['kind'] + v['msg'] + ('' if v['kind'] == 'check' else v['loc'])
                if key not in seen:
                    seen.add(key)
                    viols.append(v)
        samples = [x for r in rs for x in r['samples']]
        errs = [r['error'] for r in rs if r['error']]
        if viols:
            e = self.build_replay()
            if e:
                self.status, self.detail = 'error', e
                return
            logs = []
            for n, v in enumerate(viols):
                vals = [int(x, 16) for x in v['inputs']]
                for fill in (0xbe, 0x00, 0xff):
                    rc, log = self.replay(vals, 'v%d' % n, fill)
                    if rc in (42, 43) or rc in (-6, -11, -8, 134, 139, 136) or (rc == -99 and self.d.get('hang_is_violation')):
                        self.status = 'violation'
                        self.violation = dict(prop=v['kind'], desc=v['msg'] + ' @ ' + v['loc'], inputs=vals, rc=rc, log=log, fill=fill, loc=v['loc'])
                        return
                logs.append('%s %s @ %s: replay rc=%s %s' % (v['kind'], v['msg'], v['loc'], rc, log[-200:]))
            self.status = 'inconclusive'
            self.detail = 'counterexample did not reproduce on the real build: ' + '; '.join(logs[:5])
            return
        if errs:
            self.status, self.detail = 'inconclusive', errs[0]
            return
        if not all(r['complete'] for r in rs):
            self.status, self.detail = 'inconclusive', 'budget of %ds exceeded: %d paths explored' % (tmo, st['paths'])
            return
        if not st['reached']:
            self.status, self.detail = 'error', 'vacuous: no path reaches the end'
            return
        e = self.build_replay()
        if e:
            self.status, self.detail = 'error', e
            return
        for k, x in enumerate(samples[:24]):
            vals = [int(i, 16) for i in x]
            rc, log = self.replay(vals, 'reach%d' % k)
            if getattr(self, 'sample', None) is None or k == len(samples) - 1:
                self.sample = dict(harness=self.name, witness='path model', inputs_hex=x[:64], replay_exit=rc)
            if rc != 0:
                self.status, self.detail = 'error', 'path model replay disagrees with the encoding: rc=%s %s' % (rc, log)
                return
        self.status = 'ok'

    def cbmc_cmd(self, scale=1, props=None):
        d = self.d
        c = ['cbmc', self.gb, '--function', 'harness', '--json-ui', '--trace', '--no-malloc-may-fail',
             '--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
             '--unwinding-assertions', '--drop-unused-functions', '--object-bits', str(d.get('object_bits', 10)),
             '--unwind', str(d.get('unwind', 10) * scale), '--verbosity', '8']
        if d.get('no_checks'):
            for k in ('--bounds-check', '--pointer-check'):
                c.remove(k)
        us = d.get('unwindset', {})
        if us:
            c += ['--unwindset', ','.join('%s:%d' % (k, v * scale) for k, v in us.items())]
        c += d.get('flags', [])
        if not any(f.startswith('--sat-solver') or f in ('--z3', '--cvc5', '--bitwuzla', '--smt2') for f in c):
            c += ['--sat-solver', 'cadical'] if d.get('cadical', True) else []
        for p in props or []:
            c += ['--property', p]
        return c

    def run_cbmc(self, tmo, scale=1):
        cmd = self.cbmc_cmd(scale)
        rc, out, err, wall = sh(cmd, timeout=tmo, mem_gb=self.d.get('mem_gb', 8))
        if rc == -99:
            return None, 'solver budget of %ds exceeded' % tmo, wall
        try:
            js = json.loads(out)
        except Exception:
            return None, 'cbmc rc=%s: %s' % (rc, (out[-800:] + err[-800:])), wall
        return js, None, wall

    def parse(self, js):
        res, msgs = None, []
        for e in js:
            if 'result' in e:
                res = e['result']
            if 'messageText' in e:
                msgs.append(e['messageText'])
        st = self.stats
        nobody = set()
        for m in msgs:
            x = re.search(r'size of program expression: (\d+) steps', m)
            if x:
                st['ssa_steps'] = int(x.group(1))
            x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
            if x:
                st['vccs'], st['vccs_remaining'] = int(x.group(1)), int(x.group(2))
            x = re.search(r'(\d+) variables, (\d+) clauses', m)
            if x:
                st['sat_vars'] = max(st.get('sat_vars', 0), int(x.group(1)))
                st['sat_clauses'] = max(st.get('sat_clauses', 0), int(x.group(2)))
            x = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e+-]+)s', m)
            if x:
                st['solver_s'] = st.get('solver_s', 0) + float(x.group(1))
                if 'Solver' in m:
                    st['queries'] = st.get('queries', 0) + 1
            x = re.search(r"no body for (?:callee|function) '?([\w$]+)'?", m)
            if x:
                nobody.add(x.group(1))
        self.nobody = nobody
        return res

    @staticmethod
    def inputs_of(trace):
        v = []
        for s in trace:
            if s.get('stepType') == 'assignment' and s.get('lhs') == 'vt_in_log':
                if s.get('sourceLocation', {}).get('function') in (None, '__CPROVER_initialize'):
                    continue
                b = s.get('value', {}).get('binary')
                if b is None:
                    b = bin(int(s['value'].get('data', '0').rstrip('ul')))[2:]
                v.append(int(b, 2))
        return v

    def build_replay(self):
        if getattr(self, 'rbin', None):
            return None
        out = os.path.join(self.work, 'replay')
        bp = compile_cmd(self.d, self.inc, self.defs + ['VT_REPLAY=1'] + self.d.get('replay_defs', []))
        srcs = self.src + self.repo + self.extra + [os.path.join(VERIF, 'vt/stubs/vt_replay.c')]
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(self.work, 'r%d.o' % i)
            rc, _o, err, _ = sh(['gcc', '-g', '-O0', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffunction-sections',
                                 '-fdata-sections', '-c', s, '-o', o] + bp, timeout=300)
            if rc:
                return 'gcc %s: %s' % (s, err[-1500:])
            rm = self.d.get('replace', [])
            if rm and len(self.src) <= i < len(self.src) + len(self.repo):
                c = ['objcopy']
                for f in rm:
                    c += ['--weaken-symbol', f]
                sh(c + [o])
            objs.append(o)
        rc, _o, err, _ = sh(['gcc', '-g', '-fsanitize=address'] + objs + ['-o', out, '-lm', '-lpthread', '-Wl,--gc-sections',
                             '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,now'] + self.d.get('ldflags', []), timeout=300)
        if rc:
            return 'gcc link: ' + err[-1500:]
        self.rbin = out
        return None

    def replay(self, vals, tag, fill=0xbe):
        f = os.path.join(self.work, 'in_%s.txt' % tag)
        open(f, 'w').write('\n'.join('%x' % v for v in vals) + '\n')
        env = dict(os.environ, VT_INPUT=f,
                   ASAN_OPTIONS='detect_leaks=0:exitcode=43:max_malloc_fill_size=65536:malloc_fill_byte=%d:allocator_may_return_null=1' % fill)
        rc, out, err, _ = sh([self.rbin], timeout=60, env=env, cwd=self.work)
        self.replays += 1
        return rc, (out[-1500:] + err[-3000:])

    def run(self, budget):
        t0 = time.time()
        self.run1(budget)
        for fb in self.d.get('fallback', []):
            if self.status != 'inconclusive' or 'budget' not in self.detail and 'unwinding' not in self.detail:
                break
            left = budget - (time.time() - t0)
            if left < 10:
                break
            note = 'bounds reduced after: ' + self.detail[:120]
            self.d = dict(self.d, **fb)
            self.defs = list(self.d.get('defs', []))
            self.status, self.detail, self.stats, self.rbin = 'error', '', {}, None
            self.notes.append(note + ' -> ' + self.d.get('bounds', ''))
            self.run1(left)

    def run1(self, budget):
        t0 = time.time()
        if self.d.get('engine') == 'sym':
            return self.run_sym(budget)
        e = self.goto_compile()
        if e:
            self.status, self.detail = ('skipped' if self.d.get('optional') else 'error'), e
            return
        tmo = min(self.d.get('timeout', 300), budget)
        scale = 1
        while True:
            js, err, wall = self.run_cbmc(tmo, scale)
            if err:
                self.status, self.detail = 'inconclusive', err
                self.stats['cbmc_wall'] = wall
                return
            res = self.parse(js)
            if res is None:
                self.status, self.detail = 'error', 'no result: ' + json.dumps(js)[-1500:]
                return
            fails = [r for r in res if r['status'] == 'FAILURE']
            other = [r for r in res if r['status'] not in ('FAILURE', 'SUCCESS')]
            nb = [r for r in fails if '.no-body.' in r['property']]
            self.nobody |= {r['property'].split('.no-body.')[1].split('.')[0] for r in nb}
            fails = [r for r in fails if r not in nb]
            unw = [r for r in fails if '.unwind.' in r['property'] or '.recursion' in r['property']]
            real = [r for r in fails if r not in unw and not r.get('description', '').startswith('REACH')]
            if unw and not real and scale < 4 and time.time() - t0 < tmo / 2:
                scale *= 2
                self.notes.append('unwinding bound too small, doubled (%s)' % unw[0]['property'])
                continue
            break
        reach = [r for r in res if r.get('description', '').startswith('REACH')]
        self.stats.update(cbmc_wall=wall, assertions=len(res), assertions_ok=len([r for r in res if r['status'] == 'SUCCESS']))
        bad = self.nobody - SAFE_NOBODY - set(self.d.get('nobody_ok', []))
        if real:
            e = self.build_replay()
            if e:
                self.status, self.detail = 'error', e
                return
            for r in real:
                vals = self.inputs_of(r.get('trace', []))
                for fill in (0xbe, 0x00, 0xff):
                    rc, log = self.replay(vals, re.sub(r'\W', '_', r['property']), fill)
                    if rc in (42, 43) or rc in (-6, -11, -8, 134, 139, 136) or (rc == -99 and self.d.get('hang_is_violation')):
                        self.status = 'violation'
                        self.violation = dict(prop=r['property'], desc=r.get('description'), inputs=vals, rc=rc, log=log, fill=fill,
                                              loc=r.get('sourceLocation', {}))
                        return
            self.status = 'inconclusive'
            self.detail = 'counterexample did not reproduce on the real build: ' + '; '.join(
                '%s %s [%s:%s] replay rc=%s %s' % (r['property'], r.get('description'), r.get('sourceLocation', {}).get('file', '')[-40:],
                                     r.get('sourceLocation', {}).get('line'), rc, log[-300:]) for r in real[:6])
            return
        if unw:
            self.status, self.detail = 'inconclusive', 'unwinding bound insufficient: ' + ', '.join(r['property'] for r in unw)
            return
        if other:
            self.status, self.detail = 'inconclusive', 'undecided: ' + ', '.join('%s=%s' % (r['property'], r['status']) for r in other[:5])
            return
        if bad:
            self.status, self.detail = 'error', 'functions without body reached: ' + ', '.join(sorted(bad))
            return
        if not reach or any(r['status'] != 'FAILURE' for r in reach):
            self.status, self.detail = 'error', 'vacuous: reachability witness not found ' + str([r['property'] for r in reach if r['status'] != 'FAILURE'])
            return
        # replay the witness of the last REACH on the real build
        e = self.build_replay()
        if e:
            self.status, self.detail = 'error', e
            return
        self.sample = None
        for k, r in enumerate(reach):
            vals = self.inputs_of(r.get('trace', []))
            rc, log = self.replay(vals, 'reach%d' % k)
            if self.sample is None or len(vals) >= len(self.sample['inputs_hex']):
                self.sample = dict(harness=self.name, witness=r['description'], inputs_hex=['%x' % v for v in vals[:64]], replay_exit=rc)
            ok = rc == 0 or (rc in (78, 79) and len(reach) > 1)
            if not ok:
                self.status, self.detail = 'error', 'witness replay disagrees with the encoding: rc=%s %s' % (rc, log)
                return
        self.status = 'ok'


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and l.startswith('{'):
                j = json.loads(l)
                if j.get('property') == pid and j.get('status') == 'known':
                    out.append(j)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    pdir = os.path.join(VERIF, 'harness', pid)
    spec = importlib.util.spec_from_file_location('spec_' + pid, os.path.join(pdir, 'spec.py'))
    sys.path.insert(0, os.path.join(VERIF, 'vt'))
    mod = importlib.util.module_from_spec(spec)
    mod.TIER = a.tier
    spec.loader.exec_module(mod)
    work = os.path.join(BUILD, pid + ('' if not a.only else '-' + a.only))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cfg = os.path.join(work, 'cfg')
    gen_config(cfg)
    inc = include_dirs(cfg)
    hs = [Harness(d, pdir, work, inc) for d in mod.HARNESSES
          if (a.tier == 'thorough' or d.get('tier', 'quick') == 'quick') and (not a.only or re.fullmatch(a.only, d['name']))]
    hs.sort(key=lambda h: -h.d.get('cost', 1))
    total = 840 if a.tier == 'quick' else 6 * 3600

    def one(h):
        b = total - (time.time() - t0)
        if b < 5:
            h.status, h.detail = 'inconclusive', 'no time left'
            return
        s0 = time.time()
        try:
            h.run(b)
        except Exception as ex:
            import traceback
            h.status, h.detail = 'error', traceback.format_exc()[-1500:]
        h.wall = time.time() - s0
    # memory-weighted parallelism
    with ThreadPoolExecutor(max_workers=getattr(mod, 'JOBS', a.jobs)) as ex:
        list(ex.map(one, hs))
    known = load_known(pid)
    viol, kf = [], []
    for h in hs:
        if h.status == 'violation':
            k = [x for x in known if x['harness'] == h.name and (not x.get('assertion') or x['assertion'] in (h.violation['desc'] or ''))]
            (kf if k else viol).append(h)
    rc = 0
    for h in sorted(hs, key=lambda x: x.name):
        s = h.stats
        print('%-12s %-34s %s solver=%.1fs wall=%.1fs %s' % (
            h.status, h.name, ('paths=%s instr=%s queries=%s' % (s.get('paths'), s.get('instructions'), s.get('queries'))) if 'engine' in s else
            'steps=%s vccs=%s vars=%s' % (s.get('ssa_steps'), s.get('vccs'), s.get('sat_vars')), s.get('solver_s', 0), getattr(h, 'wall', 0),
            '; '.join(h.notes) + (h.detail if h.status != 'ok' else '')))
    # known findings are established by their own probe harnesses
    for h in hs:
        if h.status == 'violation' and h in kf:
            print('KNOWN-FINDING: property=%s harness=%s %s' % (pid, h.name, h.violation['desc']))
    if viol:
        rc = 1
        for h in viol:
            rd = os.path.join(VERIF, 'replays', pid, h.name)
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            open(os.path.join(rd, 'input.txt'), 'w').write('\n'.join('%x' % v for v in h.violation['inputs']) + '\n')
            open(os.path.join(rd, 'report.json'), 'w').write(json.dumps(h.violation, indent=1))
            shutil.copy(h.rbin, os.path.join(rd, 'replay'))
            open(os.path.join(rd, 'run.sh'), 'w').write('#!/bin/sh\ncd "$(dirname "$0")" && ASAN_OPTIONS=detect_leaks=0:exitcode=43:max_malloc_fill_size=65536:malloc_fill_byte=%d VT_INPUT=input.txt ./replay\n' % h.violation['fill'])
            os.chmod(os.path.join(rd, 'run.sh'), 0o755)
            print('  %s: %s (exit %s)\n%s' % (h.name, h.violation['desc'], h.violation['rc'], h.violation['log'][-600:]))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.join(rd, 'run.sh')))
    elif any(h.status in ('error', 'inconclusive') for h in hs) or not hs or not any(h.status == 'ok' for h in hs):
        rc = 3
        print('INCONCLUSIVE property=%s' % pid)
    ok = [h for h in hs if h.status == 'ok']
    tot = lambda k: sum(h.stats.get(k, 0) for h in hs)
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=tot('ssa_steps') + tot('paths'), transitions=tot('vccs') + tot('forks'), traces_validated_against_impl=sum(h.replays for h in hs),
                            samples=[h.sample for h in ok if getattr(h, 'sample', None)][:6],
                            meaning='states = symbolic-execution steps in the SSA encodings (CBMC) plus paths explored (vtsym); transitions = verification conditions generated (CBMC) plus forks decided by the solver (vtsym); '
                                    'traces_validated_against_impl = solver assignments re-executed on the gcc build of the same sources',
                            sat_variables=tot('sat_vars'), sat_clauses=tot('sat_clauses'), assertions_decided=tot('assertions'), solver_queries=tot('queries'),
                            solver_s=round(tot('solver_s'), 2),
                            harnesses=[dict(name=h.name, status=h.status, functions=h.d.get('functions', []), bounds=h.d.get('bounds', ''),
                                            unwind=h.d.get('unwind', 10), stats={k: (round(v, 2) if isinstance(v, float) else v) for k, v in h.stats.items()},
                                            notes=h.notes, detail=h.detail[:400]) for h in hs],
                            functions_encoded=sorted({f for h in hs for f in h.d.get('functions', [])}),
                            outside_the_claim=getattr(mod, 'OUTSIDE', ''), exhaustive=False),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + ['allocation never fails', 'CBMC 6.11 encoding, x86_64 gcc ABI'],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if not a.keep and rc != 3:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    if sys.argv[1:] == ['--build-engine']:
        print(engine())
    else:
        main()
