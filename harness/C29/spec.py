R = ['src/server/pdc_server_metadata_index.c', 'src/commons/collections/art.c', 'src/commons/collections/pdc_set.c', 'src/commons/collections/pdc_hash.c', 'src/commons/collections/pdc_compare.c', 'src/commons/utils/string_utils.c', 'src/commons/utils/query_utils.c', 'src/commons/utils/timer_utils.c']
def h(name, steps, KL, VL, extra=(), text='', **k):
    al = lambda c: 'a-b' if c + 'LO=97' in extra else '1-255 except * = ~'
    d = dict(name=name, engine='sym', src='index.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'], workers=4, defs=['IS_PDC_SERVER=1', 'STEPS=%d' % steps, 'KL=%d' % KL, 'VL=%d' % VL] + list(extra),
             bounds='histories of %d insertions and deletions of tags of 2 objects, keys of 1-%d characters of %s, values of 1-%d characters of %s%s; then every kind of search for any key part and value part' % (steps, KL, al('K'), VL, al('V'), text))
    d.update(k)
    return d
KA, VA = ['KLO=97', 'KHI=98'], ['VLO=97', 'VHI=98']
HARNESSES = [h('one_k', 1, 2, 1, VA), h('one_v', 1, 1, 2, KA), h('two', 2, 2, 1, KA + VA), h('two_v', 2, 1, 2, KA + VA), h('two_any', 2, 1, 1),
 h('part', 2, 2, 1, KA + VA + ['PART'], ', the server responsible for the ends of keys from any place on'), h('absent', 2, 1, 1, KA + VA + ['ABSENT'], ', deletions of tags that may not exist'), h('three', 3, 1, 1, KA + VA),
 h('exact', 1, 2, 1, KA + VA + ['EXACT'], ' (probe of a known finding: exact and prefix patterns answered as suffix and infix ones)'), h('shared', 3, 2, 1, KA + VA + ['SHARED'], ' (probe of a known finding: two tags of one object with a common ending)'),
 h('two_deep', 2, 3, 2, KA + VA, tier='thorough', timeout=7200, workers=8), h('three_deep', 3, 2, 1, KA + VA, tier='thorough', timeout=7200, workers=8), h('four_deep', 4, 1, 1, KA + VA, tier='thorough', timeout=7200, workers=8), h('any_deep', 2, 2, 1, tier='thorough', timeout=7200, workers=8)]
OUTSIDE = 'longer histories, keys and values than stated, range searches (~), empty values, object IDs other than two pairs (one with equal hashes), tags of one object that end alike in key and value (known finding)'
ASSUMPTIONS = ['the suffix tree mode is on (the default of the build)', 'keys and values contain no *, = or ~']
