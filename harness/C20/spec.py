R = ['wrap:../C16/server.c', 'src/server/pdc_client_server_common.c', 'src/server/pdc_hash-table.c', 'src/server/dablooms/pdc_dablooms.c', 'src/server/dablooms/pdc_murmur.c', 'src/commons/utils/string_utils.c', 'src/utils/pdc_region_utils.c']
def h(name, src, steps, names=3, srv=2, bloom=64, extra=(), text='', **k):
    return dict(dict(name=name, engine='sym', src=src, repo=R, stubs=['vt/stubs/pdc_malloc.c'], defs=['IS_PDC_SERVER=1', 'STEPS=%d' % steps, 'NAMES=%d' % names, 'SRV=%d' % srv, 'BLOOM_AT=%d' % bloom] + list(extra),
                     bounds='%d operations on any of %d names, any of %d servers%s' % (steps, names, srv, text)), **k)
HARNESSES = [
    h('cont', 'cont.c', 2, srv=1, extra=['COLLIDE=0', 'ALLOC_BASE=2'], text='; up to five object ids at once; room for two at first'),
    h('cont3', 'cont.c', 3, srv=1, extra=['COLLIDE=0', 'ALLOC_BASE=1', 'NMAX=2', 'NID=2'], text='; up to two object ids at once; room for one at first'),
    h('tags', 'cont.c', 2, srv=1, extra=['COLLIDE=0', 'PRETAG', 'OPLO=2'], text='; a container with long tags'),
    h('collision', 'cont.c', 0, srv=1, extra=['COLLIDE=0', 'PROBE'], text='; two names with the same hash'),
]
