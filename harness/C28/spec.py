R = ['wrap:../C16/server.c', 'src/server/pdc_client_server_common.c', 'src/server/pdc_hash-table.c', 'src/server/dablooms/pdc_dablooms.c', 'src/server/dablooms/pdc_murmur.c', 'src/commons/utils/string_utils.c', 'src/utils/pdc_region_utils.c']
def h(name, obj, free, steps, look=1, names=2, bloom=64, extra=(), text='', **k):
    return dict(dict(name=name, engine='sym', src='search.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'], defs=['IS_PDC_SERVER=1', 'STEPS=%d' % steps, 'NAMES=%d' % names, 'SRV=1', 'BLOOM_AT=%d' % bloom, 'OBJ=%d' % obj, 'FREE=%d' % free, 'LOOK=%d' % look] + list(extra),
                     bounds='%d objects, %d of any time step below 4 and any of three users, %d changes%s%s' % (obj, free, steps, ', any search' if look else '', text)), **k)
HARNESSES = [
    h('search', 2, 1, 1),
    h('static', 3, 3, 0),
    h('updates', 2, 0, 2, look=0),
    h('bloom', 2, 0, 2, look=0, bloom=1, names=2),
    h('long', 1, 0, 0, look=0, extra=['LONG=2040'], text='; tags of any length around what fits'),
    h('create_long', 0, 0, 0, look=0, extra=['MAKE'], text='; creation with strings of any length around what fits'),
]
