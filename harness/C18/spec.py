D = 'src/server/pdc_server_region/pdc_server_data.c'
R = ['wrap:server.c', D, 'src/utils/pdc_region_utils.c']
def h(name, cl, steps, mapped=0, shapes=0, **k):
    return dict(dict(name=name, engine='sym', src='lock.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'], nobody_ok=True, replace=['PDC_mkdir'],
                     defs=['CL=%d' % cl, 'STEPS=%d' % steps, 'MAPPED=%d' % mapped, 'SHAPES=%d' % shapes, 'PDC_SERVER_CACHE=1', 'IS_PDC_SERVER=1', 'open=vt_open', 'close=vt_close'],
                     bounds='%d clients, two different regions (%s) with any coordinates; %d lock calls (waiting or not), releases (for reading or writing)%s in any order, then all releases' % (cl, 'of one object in 1 to 3 dimensions, differing in any of their coordinates, or of two objects' if shapes else 'of one object in one dimension', steps, ' and bulk transfers, one region mapped to a buffer of one client' if mapped else '')), **k)
HARNESSES = [h('shapes', 2, 4, shapes=1), h('locks', 3, 6), h('mapped', 3, 5, 1),
             h('locks_deep', 4, 8, tier='thorough', timeout=3000, workers=8), h('mapped_deep', 3, 7, 1, tier='thorough', timeout=3000, workers=8)]
def m(name, nd, ds, typ, regs, steps, **k):
    return dict(dict(name=name, engine='sym', src='map.c', repo=['wrap:server.c', 'wrap:client.c', 'wrap:data.c', 'wrap:meta.c', 'src/utils/pdc_interface.c', 'src/utils/pdc_region_utils.c', 'src/api/pdc_region/pdc_region.c'], stubs=['vt/stubs/pdc_malloc.c'], nobody_ok=True, replace=['PDC_mkdir'],
                     defs=['NDIM=%d' % nd, 'D0=%d' % ds[0], 'D1=%d' % ds[1], 'D2=%d' % ds[2], 'TYPE=%d' % typ, 'REGS=%d' % regs, 'STEPS=%d' % steps, 'PDC_SERVER_CACHE=1', 'open=vt_open', 'close=vt_close'],
                     bounds='one client, an object of %s elements of %d bytes, %d mapped regions anywhere in it; %d times a lock, new contents of the buffer and a release, or an unmap' % ('x'.join(map(str, ds[:nd])), (1, 4, 8)[typ], regs, steps)), **k)
HARNESSES += [m('map_1d', 1, (3, 1, 1), 0, 2, 3), m('map_int', 1, (3, 1, 1), 1, 2, 2), m('map_2d', 2, (2, 2, 1), 1, 2, 2), m('map_double', 2, (2, 3, 1), 2, 1, 2), m('map_3d', 3, (2, 2, 2), 1, 1, 2),
              m('map_3', 1, (3, 1, 1), 1, 3, 4, tier='thorough', timeout=3000, workers=8), m('map_3d_two', 3, (2, 2, 2), 1, 2, 2, tier='thorough', timeout=3000, workers=8)]
ASSUMPTIONS = ['bulk transfers succeed and are carried out at any time between the calls', 'a region is mapped before it is locked, from the start of a buffer of its own, and by one client', 'only the holder of a lock releases it']
OUTSIDE = 'several servers, regions mapped by several clients at once or while they are locked, several buffers mapped to one region, locks of regions that overlap without being the same (the server treats them as different), transforms and analyses attached to regions, the multi-threaded server'
