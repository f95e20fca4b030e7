def h(name, src, repo, **k):
    return dict(dict(name=name, engine='sym', src=src, repo=repo, stubs=['vt/stubs/pdc_malloc.c']), **k)
CSC = 'src/server/pdc_client_server_common.c'
HARNESSES = [h('wire', 'wire.c', [CSC], bounds='every message type, any field values, strings of 0-2 bytes, tag values of 0-3 bytes, 0-2 histogram bins, 0-2 query constraints'),
             h('convert', 'convert.c', [CSC], bounds='1-4 dimensions, any 64-bit offsets and counts, names of 0-2 bytes, every data type')]
