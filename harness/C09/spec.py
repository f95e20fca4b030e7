FS = ['open=vt_open', 'lseek=vt_lseek', 'write=vt_write', 'pread=vt_pread', 'close=vt_close', 'IS_PDC_SERVER=1']
R = ['src/server/pdc_server_region/pdc_server_data.c', 'src/utils/pdc_region_utils.c', 'src/server/pdc_client_server_common.c']
def h(name, dim, n, unit, nw, two=0, **k):
    return dict(dict(name=name, engine='sym', src='storage.c', repo=R, replace=['PDC_mkdir'], stubs=['vt/stubs/pdc_malloc.c'],
                     defs=FS + ['DIM=%d' % dim, 'N0=%d' % n[0], 'N1=%d' % n[1], 'N2=%d' % n[2], 'UNIT=%d' % unit, 'NW=%d' % nw, 'TWO=%d' % two],
                     bounds='%d-D object of %s cells at any offset below 2^20, %d bytes per cell, %d writes of any regions, then a read of any region' % (dim, 'x'.join(map(str, n[:dim])), unit, nw)), **k)
HARNESSES = [h('d1', 1, (4, 1, 1), 2, 2, 1), h('d2', 2, (3, 2, 1), 1, 2), h('d3', 3, (2, 2, 2), 1, 2)]
HARNESSES += [h('d1_deep', 1, (4, 1, 1), 1, 3, tier='thorough', timeout=3000, workers=8), h('d2_deep', 2, (3, 3, 1), 1, 2, tier='thorough', timeout=3000, workers=8)]
OUTSIDE = 'objects of more than three dimensions, element sizes other than 1-2 bytes, short writes by the operating system'
