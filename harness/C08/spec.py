R = ['wrap:server.c', 'wrap:client.c', 'src/utils/pdc_interface.c', 'src/utils/pdc_region_utils.c']
def h(name, part, n0, objs, reqs, steps, srv=2, half=0, fixed=0, late=0, text='', **k):
    return dict(dict(name=name, engine='sym', src='life.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'], nobody_ok=True,
                     defs=['PART=%s' % part, 'N0=%d' % n0, 'OBJS=%d' % objs, 'REQS=%d' % reqs, 'STEPS=%d' % steps, 'SRV=%d' % srv, 'PER_HALF=%d' % half, 'FIXED=%d' % fixed, 'LATE=%d' % late, 'PDC_SERVER_CACHE=1'],
                     bounds='%d objects of %d cells, %s, %d servers; %d requests, reads or writes, then %d of status, wait and wait_all in any order, with any order of bulk transfers%s' % (objs, n0, part, srv, reqs, steps, text)), **k)
HARNESSES = [
    h('obj', 'PDC_OBJ_STATIC', 3, 2, 2, 2),
    h('pieces', 'PDC_REGION_STATIC', 4, 1, 1, 3),
    h('pieces2', 'PDC_REGION_STATIC', 2, 2, 2, 1, fixed=2, text='; one write and one read', cost=3),
    h('one_object', 'PDC_OBJ_STATIC', 4, 1, 2, 2, half=2),
    h('dynamic', 'PDC_REGION_DYNAMIC', 4, 2, 2, 1, fixed=3, text='; writes only'),
    h('local', 'PDC_REGION_LOCAL', 3, 2, 2, 1, fixed=3, text='; writes only'),
    h('three', 'PDC_OBJ_STATIC', 3, 3, 3, 1, srv=1, fixed=1),
    h('late', 'PDC_OBJ_STATIC', 3, 3, 3, 1, srv=1, fixed=1, late=1, text='; the last one started after the calls'),
    h('late_deep', 'PDC_OBJ_STATIC', 3, 3, 3, 2, srv=1, fixed=1, late=1, text='; the last one started after the first call', tier='thorough', timeout=3000, workers=8),
    h('obj_deep', 'PDC_OBJ_STATIC', 3, 2, 2, 3, fixed=1, tier='thorough', timeout=3000, workers=8),
    h('pieces2_deep', 'PDC_REGION_STATIC', 2, 2, 2, 2, fixed=2, text='; one write and one read', tier='thorough', timeout=3000, workers=8),
]
ASSUMPTIONS = ['one process of the application at a time has calls outstanding', 'bulk transfers succeed and are carried out in any order between and during calls', 'requests in flight at once do not overlap']
OUTSIDE = 'more requests or calls, several clients, transfers that fail, two waits at once for one request (by two threads of the application)'
