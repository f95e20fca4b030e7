R = ['src/api/pdc_region/pdc_region_transfer.c', 'src/utils/pdc_interface.c', 'src/utils/pdc_region_utils.c', 'src/server/pdc_client_server_common.c', 'wrap:../C03/server_side.c']
def h(name, dim, n, part, srv=2, ldim=None, unit=1, nw=1, extra=(), text='', **k):
    ldim = ldim or dim
    return dict(dict(name=name, engine='sym', src='../C03/transfer.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'],
                     defs=['DIM=%d' % dim, 'LDIM=%d' % ldim, 'N0=%d' % n[0], 'N1=%d' % n[1], 'N2=%d' % n[2], 'UNIT=%d' % unit, 'NW=%d' % nw, 'SRV=%d' % srv, 'PART=%s' % part] + list(extra),
                     bounds='%d-D object of %s cells of %d bytes, %d servers, %s; %d-D local regions; any regions%s' % (dim, 'x'.join(map(str, n[:dim])), unit, srv, part, ldim, text)), **k)
HARNESSES = [
    h('obj2', 1, (3, 1, 1), 'PDC_OBJ_STATIC', extra=['BATCH', 'OBJS=2'], text='; two requests at once'),
    h('tiles_same', 1, (4, 1, 1), 'PDC_REGION_STATIC', extra=['BATCH', 'SAME'], text='; two requests of one object at once'),
    h('tiles2d_same', 2, (2, 2, 1), 'PDC_REGION_STATIC', extra=['BATCH', 'SAME', 'ONE_MODE'], text='; two disjoint requests of one object at once'),
    h('tiles2d', 2, (2, 2, 1), 'PDC_REGION_STATIC', extra=['BATCH', 'OBJS=2', 'ONE_MODE'], tier='thorough', text='; two requests at once'),
    h('obj2_large', 1, (8, 1, 1), 'PDC_OBJ_STATIC', unit=8, srv=1, extra=['BATCH', 'OBJS=2', 'MINN=7'], text=' of at least 7 cells; two requests at once'),
    h('obj2_two_bytes', 1, (2, 1, 1), 'PDC_OBJ_STATIC', unit=2, srv=1, extra=['BATCH', 'OBJS=2'], text='; two requests at once'),
]
