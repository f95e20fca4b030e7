FS = ['open=vt_open', 'lseek=vt_lseek', 'write=vt_write', 'read=vt_read', 'pread=vt_pread', 'close=vt_close', 'IS_PDC_SERVER=1', 'PDC_SERVER_CACHE=1',
      'pthread_mutex_init=vt_mtx_init', 'pthread_mutex_destroy=vt_mtx_destroy', 'pthread_mutex_lock=vt_mtx_lock', 'pthread_mutex_unlock=vt_mtx_unlock',
      'pthread_create=vt_thread_create', 'pthread_join=vt_thread_join', 'gettimeofday=vt_time', 'getenv=vt_getenv', 'usleep=vt_sleep']
S = 'src/server/pdc_server_region/'
R = [S + 'pdc_server_region_cache.c', S + 'pdc_server_region_transfer.c', S + 'pdc_server_data.c', 'src/utils/pdc_region_utils.c', 'src/server/pdc_client_server_common.c']
def h(name, dim, n, unit, nw, defs=(), text='', **k):
    return dict(dict(name=name, engine='sym', src='cache.c', repo=R, replace=['PDC_mkdir'], stubs=['vt/stubs/pdc_malloc.c'],
                     defs=FS + ['DIM=%d' % dim, 'N0=%d' % n[0], 'N1=%d' % n[1], 'N2=%d' % n[2], 'UNIT=%d' % unit, 'NW=%d' % nw] + (['FLUSH_IN=9'] if not any('FLUSH_IN' in d for d in defs) else []) + list(defs),
                     bounds='%d-D object of %s cells, %d bytes per cell, %d writes of any regions, %sthen reads' % (dim, 'x'.join(map(str, n[:dim])), unit, nw, text)), **k)
HARNESSES = [
    h('d1', 1, (3, 1, 1), 2, 3),
    h('d1_small', 1, (3, 1, 1), 2, 2, ['MAXSZ="3"', 'FLUSH_IN=1'], 'cache limited to 3 bytes, a flush by a second thread at any unlock, '),
    h('d2', 2, (2, 2, 1), 2, 2),
    h('d3', 3, (2, 2, 2), 1, 1),
    h('region', 1, (3, 1, 1), 2, 2, ['ODIM0=1'], 'object of unknown shape, '),
    h('conc', 1, (3, 1, 1), 1, 2, ['CONC=1'], 'in two threads, switching at any unlock, then a flush, '),
]
HARNESSES += [h('d1_deep', 1, (4, 1, 1), 2, 3, tier='thorough', timeout=3000, workers=8), h('d2_deep', 2, (2, 2, 1), 2, 3, tier='thorough', timeout=3000, workers=8), h('d3_deep', 3, (2, 2, 2), 1, 2, tier='thorough', timeout=3000, workers=8)]
ASSUMPTIONS = ['threads switch only where the cache lock is released', 'the operating system completes every read and write']
OUTSIDE = 'larger objects, more writes, more than three dimensions, short or failing reads and writes'
