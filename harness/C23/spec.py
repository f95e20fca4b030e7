C = 'src/commons/collections/'
S = ['vt/stubs/pdc_malloc.c']
def h(name, src, repo, **k):
    return dict(dict(name=name, engine='sym', src=src, repo=repo, stubs=S), **k)
HARNESSES = []
for tier, K in (('quick', 3), ('thorough', 4)):
    sfx = '' if tier == 'quick' else '_deep'
    b = 'every sequence of %d operations over 4 keys (colliding before, after or never around growth) from 0 and 62-64 entries' % K
    HARNESSES += [h('common' + sfx, 'table.c', [C + 'pdc_hash_table.c'], defs=['K=%d' % K], bounds=b, tier=tier),
                  h('server' + sfx, 'table.c', ['src/server/pdc_hash-table.c'], defs=['K=%d' % K, 'SERVER'], bounds=b, tier=tier),
                  h('set' + sfx, 'set.c', [C + 'pdc_set.c'], defs=['K=%d' % K], bounds=b + ', second set any subset of 5 keys', tier=tier)]
HARNESSES += [h('defaults', 'defaults.c', [C + 'pdc_hash_table.c', C + 'pdc_hash.c', C + 'pdc_compare.c'], bounds='all 32/64-bit keys'),
              h('strings', 'strings.c', [C + 'pdc_hash_table.c', C + 'pdc_hash.c', C + 'pdc_compare.c'], bounds='all strings of at most 3 bytes (order: ASCII)')]
OUTSIDE = 'floating-point keys, tables beyond 68 entries (second growth), removal during iteration'
