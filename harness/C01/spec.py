F = ['PDC_region_overlap_detect', 'check_overlap', 'detect_region_contained']
HARNESSES = [dict(name='overlap_%dd' % n, src='overlap.c', repo=['src/utils/pdc_region_utils.c'], defs=['NDIM=%d' % n],
                  unwind=8, unwindset={}, functions=F, bounds='ndim=%d, offsets/sizes full 64-bit, size>=1, offset+size does not wrap' % n)
             for n in (1, 2, 3, 4)]
ASSUMPTIONS = ['sizes >= 1', 'offset+size <= 2^64-1 in every dimension']
OUTSIDE = 'more than 4 dimensions; zero-sized regions; regions whose end wraps 2^64'
