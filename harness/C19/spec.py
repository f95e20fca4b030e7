R = ['wrap:../C16/server.c', 'src/server/pdc_client_server_common.c', 'src/server/pdc_hash-table.c', 'src/server/dablooms/pdc_dablooms.c', 'src/server/dablooms/pdc_murmur.c', 'src/commons/utils/string_utils.c', 'src/utils/pdc_region_utils.c']
def h(name, src, steps, names=3, srv=2, bloom=64, extra=(), text='', **k):
    return dict(dict(name=name, engine='sym', src=src, repo=R, stubs=['vt/stubs/pdc_malloc.c'], defs=['IS_PDC_SERVER=1', 'STEPS=%d' % steps, 'NAMES=%d' % names, 'SRV=%d' % srv, 'BLOOM_AT=%d' % bloom] + list(extra),
                     bounds='%d operations on any of %d names, any of %d servers%s' % (steps, names, srv, text)), **k)
HARNESSES = [
    h('tags', 'tags.c', 3, names=2, srv=1),
    h('tags_deep', 'tags.c', 4, names=2, srv=1, tier='thorough', timeout=3000, workers=8),
    h('many', 'tags.c', 0, names=2, srv=1, extra=['MANY=260'], text='; 260 objects, one tag each'),
]
