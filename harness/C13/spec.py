R = ['src/server/pdc_server_region/pdc_server_data.c', 'src/server/pdc_client_server_common.c', 'src/api/pdc_query/pdc_query.c']
FS = ['fopen=vt_fopen', 'fclose=vt_fclose', 'fread=vt_fread', 'fseek=vt_fseek', 'ftell=vt_ftell', 'IS_PDC_SERVER=1']
OPN = {None: 'any of the five operators', '0': '>', '1': '<', '2': '>=', '3': '<=', '4': '='}
TREES = {0: 'one condition', 1: 'two conditions combined with AND or OR', 2: '(a x b) y c of three conditions, x and y AND or OR', 3: 'a x (b y c) of three conditions, x and y AND or OR', 4: '(a x b) y (c z d) of four conditions, x, y, z AND or OR'}
def text(defs):
    d = dict(x.split('=', 1) if '=' in x else (x, '') for x in defs)
    nd = int(d.get('NDIM', 1)); n = [d.get('D0', '3'), d.get('D1', '1'), d.get('D2', '1')][:nd]
    ops = d.get('OPS'); ops = 'operators ' + ' '.join(OPN[o] for o in ops.strip('{}').split(',')) if ops else OPN[None]
    t = ['%s, %s, any constants' % (TREES[int(d.get('TREE', 0))], ops), 'two objects of %s elements of type %s with any values (float and double: any bit pattern)' % ('x'.join(n), d.get('TYPE', 'int'))]
    if 'ALIKE' in d: t.append('all elements of an object alike')
    if 'WRITTEN' in d: t.append('stored by %s writes of any boxes of the server\'s write path' % d['WRITTEN'])
    else: t.append('cut into two stored regions ' + ('anywhere' if 'SPLIT' in d else 'at a fixed place') + (', one of them missing' if 'HOLE' in d else ''))
    if 'BOX' in d: t.append('limited to any box')
    if 'READ' in d: t.append('then the values of the hits are read')
    if 'NHITS' in d: t.append('asking for the number of hits')
    if 'TWICE' in d: t.append('two queries one after the other' + (', with a write in between' if 'WRITTEN' in d else ''))
    return '; '.join(t)
def h(name, extra=(), **k):
    bounds = text(extra)
    return dict(dict(name=name, engine='sym', src='query.c', repo=R, stubs=['vt/stubs/pdc_malloc.c'], workers=4, defs=FS + list(extra), bounds=bounds), **k)
def T(t, p): return ['TYPE=%s' % t, 'PTYPE=%s' % p]
TYPES = (('float', 'float', 'PDC_FLOAT'), ('double', 'double', 'PDC_DOUBLE'), ('uint', 'uint32_t', 'PDC_UINT'), ('int64', 'int64_t', 'PDC_INT64'), ('uint64', 'uint64_t', 'PDC_UINT64'))
HARNESSES = [h('leaf_int', ['SPLIT', 'BOX', 'READ'])] + [h('leaf_' + n, ['SPLIT', 'READ'] + T(t, p)) for n, t, p in TYPES] + [
 h('leaf_2d', ['SPLIT', 'BOX', 'READ', 'NDIM=2', 'D0=2', 'D1=3']), h('leaf_3d', ['SPLIT', 'READ', 'NDIM=3', 'D0=2', 'D1=2', 'D2=2', 'OPS={0}', 'NOPS=1']),
 h('two', ['TREE=1', 'SPLIT', 'OPS={0,1,4}', 'NOPS=3']), h('nhits', ['TREE=1', 'NHITS']), h('hole0', ['TREE=1', 'HOLE=0', 'OPS={0,3}', 'NOPS=2']), h('hole1', ['TREE=1', 'HOLE=1', 'OPS={0,3}', 'NOPS=2']),
 h('two_2d', ['TREE=1', 'NDIM=2', 'D0=2', 'D1=2', 'OPS={3}', 'NOPS=1', 'SPLIT', 'READ']),
 h('left', ['TREE=2', 'D0=2', 'OPS={0,1,3}', 'NOPS=3']), h('right', ['TREE=3', 'D0=2', 'OPS={0,1,3}', 'NOPS=3']), h('both', ['TREE=4', 'D0=2', 'OPS={0}', 'NOPS=1', 'LOBJ={0,1,0,1}']), h('twice', ['TWICE', 'OPS={0,3}', 'NOPS=2'])]
W = dict(replace=['PDC_mkdir'], repo=R + ['src/utils/pdc_region_utils.c'])
WF = ['open=vt_open', 'lseek=vt_lseek', 'write=vt_write', 'pread=vt_pread', 'close=vt_close', 'NOPS=1', 'OPS={4}']
HARNESSES += [h('written', WF + ['WRITTEN=2'], **W), h('written_and', WF + ['TREE=1', 'D0=2', 'WRITTEN=2'], **W), h('written_2d', WF + ['NDIM=2', 'D0=2', 'D1=2', 'WRITTEN=2'], **W), h('rewritten', WF + ['WRITTEN=1', 'TWICE', 'D0=2'], **W)]
HARNESSES += [h('many', ['NDIM=2', 'D0=2', 'D1=2060', 'ALIKE', 'OPS={0}', 'NOPS=1']), h('many_or', ['TREE=1', 'NDIM=2', 'D0=2', 'D1=2060', 'ALIKE', 'OPS={0}', 'NOPS=1', 'LOBJ={0,1}'])]
HARNESSES += [h('range_' + n, ['TREE=1', 'D0=2', 'LOBJ={0}'] + T(t, p)) for n, t, p in TYPES]
ASSUMPTIONS = ['the messages between client and server carry the serialized query unchanged (their encoding is the subject of C11), and files keep what is written to them']
OUTSIDE = 'pruning by histograms (C14), indexes of FastBit (not built), queries spread over several servers, types other than int, unsigned, float, double, int64 and uint64, objects of more elements and dimensions than stated; reading the values of a selection on a single server through PDC_Server_recv_get_sel_data'
