D = 'src/server/dablooms/'
def h(name, src, repo, **k):
    return dict(dict(name=name, engine='sym', src=src, repo=repo, stubs=['vt/stubs/pdc_malloc.c']), **k)
HARNESSES = [h('counting', 'bloom.c', [D + 'pdc_dablooms.c'], defs=['CAP=3', 'ERR=0.3', 'K=3'], bounds='3 keys with arbitrary 32-bit hash pairs, sequences of 3 adds and removals'),
             h('scaling', 'bloom.c', [D + 'pdc_dablooms.c'], defs=['CAP=2', 'ERR=0.5', 'K=4', 'SCALE'], bounds='3 keys with hash words 0-2, 4 adds and removals, growing by up to 3 filters'),
             h('murmur', 'murmur.c', [D + 'pdc_murmur.c'], defs=['MAXN=18'], bounds='keys of 0-18 arbitrary bytes, any seed, two alignments')]
OUTSIDE = 'more than 15 additions hitting one counter, removal of keys that are not in the filter'
