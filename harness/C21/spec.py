R = ['src/commons/index/dart/dart_core.c', 'src/commons/index/dart/dart_math.c', 'src/commons/utils/string_utils.c']
def h(name, servers, L, lo=1, hi=255, first=None, **k):
    d = dict(name=name, engine='sym', src='route.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'], ldflags=['-lm'], workers=4, defs=['L=%d' % L, 'SERVERS={%s}' % servers, 'CHLO=%d' % lo, 'CHHI=%d' % hi],
             bounds='keywords of 1 to %d characters, each any of %d-%d; %s servers; any loads, any request count, every kind of operation and every part of the keyword' % (L, lo, hi, servers))
    if first:
        d['defs'] = d['defs'] + ['FORK0="%s"' % first]
        d['bounds'] += ', the first one of %s' % first
    d.update(k)
    return d
A27 = ''.join(chr(c) for c in range(97, 122)) + 'A5'
HARNESSES = [h('few', '1,2,3,4', 3), h('len4', '4', 4), h('many', '27,28', 2, 64, 127, first='kly'), h('tall', '28', 4, 97, 100, first='k'),
             dict(name='dht', engine='sym', src='dht.c', repo=R + ['src/commons/index/dart/dart_algo.c'], stubs=['vt/stubs/pdc_malloc.c'], ldflags=['-lm', '-luuid'], bounds='keywords of 1 to 3 characters, each any of 1-255; 1 to 4 servers; both variants; every kind of operation and every part of the keyword'),
             h('few_deep', '5,6,7,8', 4, tier='thorough', timeout=3600, workers=8), h('many_deep', '27,28,40', 2, first=A27, tier='thorough', timeout=3600, workers=8), h('tall_deep', '28,100', 4, first='klmy', tier='thorough', timeout=7200, workers=8)]
OUTSIDE = 'more servers or longer keywords than stated, empty keywords, keywords that contain a zero byte'
ASSUMPTIONS = ['thpool_init is replaced (no thread pool is made)', 'the load a server reports is arbitrary at every call', 'the suffix tree mode is on (the default of the build)']
