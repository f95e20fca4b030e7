C = 'src/commons/collections/'
def h(name, src, repo, **k):
    return dict(dict(name=name, engine='sym', src=src, repo=repo, stubs=['vt/stubs/pdc_malloc.c']), **k)
HARNESSES = [h('deque', 'deque.c', [C + 'pdc_deque.c'], defs=['K=4', 'FILLS={0,1,2,5,8,15,16,31,33}'], bounds='three rotations, nine fill levels around the capacities 16 and 32, every sequence of 4 operations, any element values'),
             h('stack', 'stack.c', [C + 'pdc_stack.c'], defs=['K=6'], bounds='eight fill levels around the capacities 16 and 32, every sequence of 6 operations'),
             h('vector', 'vector.c', [C + 'pdc_vector.c'], bounds='initial capacity 1-4, expansion factors 1.0-3.0 changed once, up to 12 elements, any index'),
             h('deque_deep', 'deque.c', [C + 'pdc_deque.c'], tier='thorough', timeout=3000, workers=8, defs=['K=6', 'FILLS={0,1,2,3,4,5,6,7,8,9,14,15,16,17,31,32,33}'], bounds='seventeen fill levels, every sequence of 6 operations')]
OUTSIDE = 'popping an empty stack (the code exits), a vector with initial capacity 0'
