HARNESSES = []
for nd, maxd, unit in ((1, 5, 1), (1, 3, 3), (2, 3, 1), (2, 2, 2), (3, 2, 1)):
    for nm, mode, wr, f in (('gather', 0, 1, 'memcpy_subregion'), ('scatter', 0, 0, 'memcpy_subregion'), ('ovl', 1, 0, 'memcpy_overlap_subregion')):
        cap = maxd ** nd * unit
        HARNESSES.append(dict(name='%s_%dd_u%d' % (nm, nd, unit), src='copy.c', repo=['src/utils/pdc_region_utils.c'], stubs=['vt/stubs/bytemem.c'],
                              defs=['NDIM=%d' % nd, 'UNIT=%d' % unit, 'MAXD=%d' % maxd, 'MODE=%d' % mode, 'WR=%d' % wr],
                              unwind=maxd * unit + 2, unwindset={'harness.%d' % i: cap + 4 for i in range(10)}, functions=[f],
                              bounds='ndim=%d, every dimension <= %d, unit=%d, symbolic geometry and contents' % (nd, maxd, unit)))
ASSUMPTIONS = ['sub-region lies inside the region (gather/scatter); overlap box is the exact intersection (overlap copy)']
OUTSIDE = 'dimensions beyond the stated extents; more than 3 dimensions; overlapping source/target buffers'
