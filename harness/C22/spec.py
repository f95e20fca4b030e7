R = ['src/commons/collections/art.c']
S = ['vt/stubs/pdc_malloc.c']
def h(name, **k):
    d = dict(name=name, engine='sym', src='art.c', repo=R, stubs=S, workers=4)
    d.update(k)
    return d
HARNESSES = [h('seq3_bytes', defs=['K=3', 'L=2', 'MININS=1'], bounds='3 operations (insert, insert-no-replace, delete), keys of 0-2 arbitrary non-zero bytes, then an arbitrary lookup and prefix scan'),
 h('seq3_len4', defs=['K=3', 'L=4', 'MININS=3', 'LO=97', 'HI=98'], bounds='3 inserts, keys of 0-4 bytes over a 2-letter alphabet'),
 h('seq4_ab', defs=['K=4', 'L=2', 'MININS=2','LO=97', 'HI=98'], bounds='4 operations, keys of 0-2 bytes over a 2-letter alphabet'),
 h('longpath', defs=['K=3', 'L=14', 'MINL=9', 'FIX=11', 'MININS=2','LO=97', 'HI=98'], bounds='keys of 9-14 bytes sharing 11 leading bytes (compressed paths beyond the stored 10)'),
 h('split', defs=['K=3', 'L=13', 'MINL=13', 'MININS=2', 'PATTERN'], bounds='keys of 13 different bytes of which at most one, anywhere, is replaced'),
 h('midpath', defs=['K=3', 'L=12', 'MINL=12', 'FIX=9', 'MININS=2','LO=97', 'HI=98'], bounds='keys of 12 bytes sharing 9 leading bytes'),
]
for nm, up, dn, pre, st, tier in (('small', '{4,5,5}', '{4,5,3}', 1, 7, 'quick'), ('n16', '{16,17}', '{16,12}', 0, 7, 'quick'), ('n48', '{49}', '{49}', 1, 37, 'quick'), ('n48b', '{49}', '{37}', 0, 16, 'quick'),
                                  ('small_all', '{3,4,5,5,5}', '{3,4,5,4,3}', 1, 7, 'thorough'), ('n16_all', '{15,16,17,17,17,18}', '{15,16,17,12,11,13}', 0, 7, 'thorough'), ('n48_all', '{47,48,49,49,49}', '{47,48,49,37,38}', 0, 16, 'thorough')):
    HARNESSES.append(h('fan_' + nm, src='grow.c', cost=9 if 'n48' in nm else 8, tier=tier, timeout=300 if tier == 'quick' else 3000, defs=['FANS=' + up, 'DOWNS=' + dn, 'PRE=%d' % pre, 'STRIDE=%d' % st] + (['QFORK'] if 'small' not in nm else []),
                       bounds='node grown to %s children and shrunk to %s, then any lookup, or an update at the ends or middle of or outside the live bytes followed by any lookup and a full iteration' % (up, dn)))
HARNESSES += [h('seq4_bytes', tier='thorough', timeout=7200, workers=8, defs=['K=4', 'L=2', 'MININS=2'], bounds='4 operations, keys of 0-2 arbitrary non-zero bytes'),
  h('seq5_ab', tier='thorough', timeout=7200, workers=8, defs=['K=5', 'L=2', 'MININS=3', 'LO=97', 'HI=98'], bounds='5 operations, keys of 0-2 bytes over a 2-letter alphabet')]
OUTSIDE = 'keys containing a zero byte, more operations than stated, iteration order, allocation failure'
ASSUMPTIONS = ['keys contain no zero byte and are passed with their terminator excluded, the terminator present in memory']
JOBS = 4
