R = ['src/api/pdc_region/pdc_region_transfer.c', 'src/utils/pdc_interface.c', 'src/utils/pdc_region_utils.c', 'src/server/pdc_client_server_common.c', 'wrap:../C03/server_side.c']
def h(name, dim, n, part, srv=2, ldim=None, unit=1, nw=1, extra=(), text='', **k):
    ldim = ldim or dim
    return dict(dict(name=name, engine='sym', src='../C03/transfer.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'],
                     defs=['DIM=%d' % dim, 'LDIM=%d' % ldim, 'N0=%d' % n[0], 'N1=%d' % n[1], 'N2=%d' % n[2], 'UNIT=%d' % unit, 'NW=%d' % nw, 'SRV=%d' % srv, 'PART=%s' % part] + list(extra),
                     bounds='%d-D object of %s cells of %d bytes, %d servers, %s; %d-D local regions; any regions%s' % (dim, 'x'.join(map(str, n[:dim])), unit, srv, part, ldim, text)), **k)
HARNESSES = [
    h('tiles1', 1, (5, 1, 1), 'PDC_REGION_STATIC', srv=3, unit=2),
    h('tiles1_more_servers', 1, (2, 1, 1), 'PDC_REGION_STATIC', srv=3, nw=2),
    h('tiles1_many_servers', 1, (7, 1, 1), 'PDC_REGION_STATIC', srv=4),
    h('tiles2', 2, (3, 2, 1), 'PDC_REGION_STATIC', srv=2),
    h('tiles3', 3, (3, 2, 2), 'PDC_REGION_STATIC', srv=2, extra=['ONE_MODE']),
    h('tiles1_two_writes', 1, (4, 1, 1), 'PDC_REGION_STATIC', srv=2, nw=2),
]
