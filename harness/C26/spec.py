R = ['src/commons/utils/string_utils.c', 'src/commons/utils/query_utils.c']
def h(name, **k):
    return dict(dict(name=name, engine='sym', src=name.split('_')[0] + '.c', repo=R, stubs=['vt/stubs/pdc_malloc.c']), **k)
HARNESSES = [h('match', defs=['NS=3', 'NP=4'], bounds='all strings of at most 3 bytes, all patterns of at most 4 bytes'),
             h('cut', defs=['NS=4'], bounds='all strings of at most 4 bytes, all ranges, any delimiter'),
             h('gen', defs=['NS=4'], bounds='names and string values of 1-4 bytes other than *, all affix kinds and lengths'),
             h('tags', bounds='lists of at most 2 pairs of words of 1-2 letters over two letters, four pattern kinds'),
             h('range', bounds='two-digit and one-digit values, any 32-bit range'),
             h('match_deep', tier='thorough', timeout=3000, workers=8, defs=['NS=5', 'NP=5'], bounds='all strings and patterns of at most 5 bytes'),
             h('gen_deep', tier='thorough', timeout=3000, workers=8, defs=['NS=6'], bounds='names and values of 1-6 bytes')]
OUTSIDE = 'splitting by regular expressions, formatted printing, random string generation, integer and floating tag values in generated queries'
