SRC = ['src/api/pdc.c', 'src/api/pdc_obj/pdc_prop.c', 'src/api/pdc_obj/pdc_obj.c', 'src/api/pdc_obj/pdc_cont.c', 'src/api/pdc_region/pdc_region.c', 'src/utils/pdc_interface.c']
def h(name, src, defs, bounds, **k):
    return dict(dict(name=name, engine='sym', src=src, repo=SRC, stubs=['vt/stubs/pdc_malloc.c'], nobody_ok=True, defs=defs, bounds=bounds), **k)
HARNESSES = [
    h('ids', 'ids.c', ['STEPS=3'], 'histories of up to 3 calls of register, inc_ref, dec_ref and find on two types, any 64-bit ID looked up'),
    h('props', 'props.c', ['STEPS=3'], 'two object property lists, 3 calls of any setter, dup or close, values of any kind, 1 to 3 dimensions'),
    h('objects', 'objects.c', ['STEPS=3'], 'two containers, one property list of 1 or 2 dimensions, an object and then 3 calls of create, close (object, container, properties), set_dims and property changes; the servers may refuse any', workers=6, cost=4),
    h('open', 'open.c', [], 'open of an object and a container that exist or not, with any description of up to 3 dimensions'),
    h('regions', 'regions.c', ['STEPS=3'], 'a region of up to 3 dimensions, an object, 3 calls of map, unmap, lock, release and close; the servers may refuse'),
    h('ids_deep', 'ids.c', ['STEPS=4'], 'histories of up to 4 calls of register, inc_ref, dec_ref and find on two types, any 64-bit ID looked up', tier='thorough', timeout=1500, workers=8),
    h('props_deep', 'props.c', ['STEPS=4'], 'two object property lists, 4 calls of any setter, dup or close', tier='thorough', timeout=2400, workers=8),
    h('regions_deep', 'regions.c', ['STEPS=4'], 'a region of up to 3 dimensions, an object, 4 calls of map, unmap, lock, release and close', tier='thorough', timeout=2400, workers=8),
]
ASSUMPTIONS = ['memory is available', 'the servers answer a call or refuse it; a refused call has no effect there']
OUTSIDE = 'more handles or longer histories, several threads, names longer than two characters'
