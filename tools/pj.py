#!/usr/bin/env python3
"""Writes harness/<ID>/property.json (used while a property is written down)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(id, title, statement, over, text, why, anchors, note):
    files = []
    for _, w in anchors:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in anchors]), level_note=note)
    p = os.path.join(V, 'harness', id)
    os.makedirs(p, exist_ok=True)
    json.dump(d, open(os.path.join(p, 'property.json'), 'w'), indent=1)
PO = 'src/api/pdc_obj/pdc_obj.c'
PP = 'src/api/pdc_obj/pdc_prop.c'
PC = 'src/api/pdc_obj/pdc_cont.c'
PI = 'src/utils/pdc_interface.c'
MI = 'src/server/pdc_server_metadata_index.c'
PQ = 'src/api/pdc_query/pdc_query.c'
CS = 'src/server/pdc_client_server_common.c'
SD = 'src/server/pdc_server_region/pdc_server_data.c'
CC='src/api/pdc_client_connect.c'
PR='src/api/pdc_region/pdc_region.c'
P('C18', 'Region locks exclude each other and carry the buffer of a mapped region',
  'A region has at most one lock holder at a time, locks of different regions do not affect each other, a request for a held region that does not wait is refused, a waiting request is granted once the region is released, and a region that is not locked cannot be released.  Releasing a mapped region that was locked for writing stores the buffer in exactly the elements of that region and nowhere else; for reading, the buffer receives the elements of that region.  Every request is answered exactly once.',
  ['inputs', 'schedules', 'histories'], 'any sequence of locks, releases, maps and unmaps by several clients, any two regions, any contents',
  'Which request waits, which is woken up and which buffer is transferred depends on the order of the calls of all clients and on when the bulk transfers end; tests lock one region once from one client.',
  [('lock', SD + ':PDC_Data_Server_region_lock'), ('release', SD + ':PDC_Data_Server_region_release'), ('waking up', SD + ':PDC_Server_release_lock_request'), ('map', SD + ':PDC_Data_Server_buf_map'), ('unmap', SD + ':PDC_Data_Server_buf_unmap'), ('handlers', CS + ':HG_TEST_RPC_CB(region_release, handle)'), ('client', CC + ':PDC_Client_region_lock'), ('client release', CC + ':PDC_Client_region_release'), ('client map', CC + ':PDC_Client_buf_map'), ('API', PR + ':PDCbuf_obj_map')],
  'The server handlers of lock, release, map and unmap, with the client functions that call them, are executed symbolically over sequences of calls chosen by the solver, with symbolic regions and buffer contents; every answer and every transfer is compared with a reference lock table and a reference array.')
