#!/usr/bin/env python3
"""mkdemo.py ID HARNESS INPUT OUTDIR: a self-contained demonstration that runs one harness of property ID on
one concrete input against the sources in the current directory (gcc, AddressSanitizer)."""
import os, sys, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vt'))
A = sys.argv[1:5]; sys.argv = ['x', A[0]]
import run as R, importlib.util
pid, hn, inp, out = A
pd = os.path.join(V, 'harness', pid)
sp = importlib.util.spec_from_file_location('spec', os.path.join(pd, 'spec.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
d = [x for x in m.HARNESSES if x['name'] == hn][0]
os.makedirs(out, exist_ok=True)
def cp(rel):
    src = os.path.join(V, rel); dst = os.path.join(out, rel); os.makedirs(os.path.dirname(dst), exist_ok=True)
    (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, dst, **({'dirs_exist_ok': True} if os.path.isdir(src) else {}))
for r in ('vt/include', 'vt/stubs'): cp(r)
todo = [os.path.normpath(os.path.join('harness', pid, s)) for s in ([d['src']] if isinstance(d['src'], str) else d['src'])]
todo += [os.path.normpath(os.path.join('harness', pid, s[5:])) for s in d.get('repo', []) if s.startswith('wrap:')]
wraps = todo[len(todo) - len([s for s in d.get('repo', []) if s.startswith('wrap:')]):][:]
srcs = list(todo) + d.get('stubs', []) + ['vt/stubs/vt_replay.c']
seen = set()
while todo:
    f = todo.pop()
    if f in seen: continue
    seen.add(f); cp(f)
    for i in re.findall(r'#include "([^"]+)"', open(os.path.join(V, f)).read()):
        g = os.path.normpath(os.path.join(os.path.dirname(f), i))
        if os.path.exists(os.path.join(V, g)): todo.append(g)
R.gen_config(os.path.join(out, 'cfg'))
shutil.copy(inp, os.path.join(out, 'input.txt'))
defs = ['PDC_SERVER_CACHE_MAX_GB=3', 'PDC_SERVER_CACHE_FLUSH_TIME=30', 'VT=1'] + d.get('defs', []) + ['VT_REPLAY=1'] + d.get('replay_defs', [])
weak = ''.join(' --weaken-symbol ' + f for f in d.get('replace', []))
q = lambda s: "'" + s + "'"
open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# Compiles the sources of the current directory with the driver beside this file, runs one concrete input.
# Exit 0: the property held on it; 1: it did not.
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
I="-I$H/vt/include -I$H/vt/stubs/include -I$H/cfg"
for d in $(find src/api src/commons src/server src/utils src/tools/cjson -name '*.h' -printf '%%h\\n' | sort -u); do I="$I -I$PWD/$d"; done
I="$I -I$PWD -I%s"
D=(%s)
n=0
c() { n=$((n+1)); gcc -g -O0 -fsanitize=address -fno-omit-frame-pointer -ffunction-sections -fdata-sections -std=gnu99 -fcommon -w "${D[@]}" $I -c "$1" -o "$W/$n.o" || exit 2; }
%s
gcc -g -fsanitize=address "$W"/*.o -o "$W/demo" -lm -lpthread -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -Wl,-z,now %s || exit 2
cd "$W"
ASAN_OPTIONS=detect_leaks=0:exitcode=43:max_malloc_fill_size=65536:malloc_fill_byte=%d:allocator_may_return_null=1 VT_INPUT="$H/input.txt" timeout 60 ./demo > out 2>&1
rc=$?
grep -E "VT-|ERROR" out | head -3
case $rc in 42|43|124|13[0-9]) echo "broken (rc $rc)"; exit 1;; 0|77|78|79) echo "fine (rc $rc)"; exit 0;; *) tail -3 out; echo "rc $rc"; exit 3;; esac
''' % (R.MPI_INC, ' '.join(q('-D' + x) for x in defs),
       '\n'.join(('c $PWD/%s' % s + (' && objcopy%s $W/$n.o' % weak if weak else '')) for s in d.get('repo', []) if not s.startswith('wrap:')) + '\n' + '\n'.join('c $H/%s' % s + (' && objcopy%s $W/$n.o' % weak if weak and s in wraps else '') for s in srcs),
       ' '.join(d.get('ldflags', [])), int(os.environ.get('FILL', '190'))))
os.chmod(os.path.join(out, 'demo.sh'), 0o755)
