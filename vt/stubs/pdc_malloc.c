/* Allocation wrappers of src/utils/pdc_malloc.c (not built by the baseline build): straight forwarding. */
#include <stdlib.h>
#include "pdc_malloc.h"
size_t PDC_mem_usage_g;
void *PDC_malloc(size_t n) { return malloc(n); }
void *PDC_malloc_addsize(size_t n, size_t *m) { void *p = malloc(n); if (p && m) *m += n; return p; }
void *PDC_calloc(size_t a, size_t b) { return calloc(a, b); }
void *PDC_calloc_addsize(size_t a, size_t b, size_t *m) { void *p = calloc(a, b); if (p && m) *m += a * b; return p; }
void *PDC_realloc(void *p, size_t n) { return realloc(p, n); }
void *PDC_realloc_addsize(void *p, size_t n, size_t *m) { if (m) *m += n; return realloc(p, n); }
void *PDC_free(void *p) { free(p); return 0; }
size_t PDC_get_global_mem_usage() { return PDC_mem_usage_g; }
