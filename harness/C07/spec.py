R = ['wrap:server.c', 'wrap:../C16/server.c', 'wrap:../C03/server_side.c', 'src/server/pdc_server_region/pdc_server_data.c', 'src/server/pdc_client_server_common.c', 'src/server/pdc_hash-table.c', 'src/server/dablooms/pdc_dablooms.c', 'src/server/dablooms/pdc_murmur.c', 'src/commons/utils/string_utils.c', 'src/utils/pdc_region_utils.c']
FS = ['fopen=vt_fopen', 'fclose=vt_fclose', 'fwrite=vt_fwrite', 'fread=vt_fread', 'rename=vt_rename', 'remove=vt_remove', 'system=vt_system', 'getenv=vt_getenv', 'IS_PDC_SERVER=1']
def h(name, src, extra=(), srv=2, tmpfs='NULL', bloom=64, **k):
    return dict(dict(name=name, engine='sym', src=src, repo=R, stubs=['vt/stubs/pdc_malloc.c'], replace=['PDC_mkdir', 'PDC_get_self_addr'], defs=FS + ['SRV=%d' % srv, 'BLOOM_AT=%d' % bloom, 'TMPFS=%s' % tmpfs] + list(extra)), **k)
HARNESSES = [
    h('empty', 'restart.c', ['NAMES=3', 'BEFORE=2', 'OPS_LO=0', 'OPS_HI=8', 'AFTER=1', 'AGAIN=0'], bounds='any two operations on an empty server, restart, any operation'),
    h('full', 'restart.c', ['NAMES=3', 'BASE', 'BEFORE=1', 'OPS_LO=0', 'OPS_HI=8', 'AFTER=1', 'AGAIN=1'], srv=1, bounds='two objects, two containers, tags, then any operation, restart, any operation, restart'),
]
HARNESSES += [
    h('crash', 'crash.c', ['NAMES=3', 'WRITES=70'], srv=1, bounds='a stop at any of the writes of the second checkpoint of a server with up to two objects and containers'),
]
RW = ['open=vt_open', 'lseek=vt_lseek', 'write=vt_write', 'pread=vt_pread', 'close=vt_close']
HARNESSES += [
    h('placement', 'regions.c', RW + ['NAMES=2', 'PLACE'], bounds='two regions of any position below 1000 placed, any region asked for'),
    h('data', 'regions.c', RW + ['NAMES=2', 'DATA=2', 'AT=1'], srv=1, bounds='two writes of up to four bytes to either of two objects, restart, reads'),
    h('data_between', 'regions.c', RW + ['NAMES=2', 'DATA=2', 'AT=0'], srv=1, bounds='a write of up to four bytes to either of two objects, restart, another write, reads'),
    h('storage', 'regions.c', RW + ['NAMES=2', 'STORE'], srv=1, bounds='one or two storage regions, the first with a histogram or not'),
]
HARNESSES += [
    h('tmpfs', 'restart.c', ['NAMES=2', 'BEFORE=2', 'OPS_LO=0', 'OPS_HI=3', 'AFTER=0', 'AGAIN=0'], srv=1, tmpfs='"1"', bounds='checkpoints written to /tmp first; two operations'),
    h('bloom', 'restart.c', ['NAMES=2', 'BASE', 'BEFORE=1', 'OPS_LO=0', 'OPS_HI=2', 'AFTER=1', 'AGAIN=0'], srv=1, bloom=1, bounds='as full, with Bloom filters'),
    h('full_deep', 'restart.c', ['NAMES=3', 'BASE', 'BEFORE=2', 'OPS_LO=0', 'OPS_HI=8', 'AFTER=1', 'AGAIN=1'], srv=2, tier='thorough', timeout=3000, workers=8, bounds='two objects, two containers, tags, then any two operations, restart, any operation, restart'),
]
OUTSIDE = 'restarts with another number of servers; the DART index (it is not part of checkpoints); failing writes other than a stop of the machine; file system caches'
ASSUMPTIONS = ['files keep what was written before the machine stops, in the order written; rename replaces a file at once', 'Mercury, MPI and the region cache thread are stand-ins']
