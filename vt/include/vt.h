/* Harness interface.  One source serves three builds:
 *   - clang bitcode (-DVT_SYM -DVT_REPLAY) for the path-wise engine /verif/engine/vtsym;
 *   - goto-cc/CBMC: every vt_*() input is a symbolic value;
 *   - gcc (-DVT_REPLAY): the same inputs are read back, in order, from the
 *     solver's assignment, and the real machine code is executed.            */
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

#ifndef VT_REPLAY
uint64_t nondet_vt_u64(void);
extern uint64_t vt_in_log; /* every input is assigned here: the trace of it is the replay vector */
static inline uint64_t vt_u64(void)
{
    uint64_t v = nondet_vt_u64();
    vt_in_log  = v;
    return v;
}
#define vt_assume(c) __CPROVER_assume(c)
#define VT_CHECK(c, msg) __CPROVER_assert((c), "VT " msg)
#define VT_REACH(msg) __CPROVER_assert(0, "REACH " msg)
#else
uint64_t vt_u64(void);
#ifdef VT_SYM
uint64_t vt_range(uint64_t lo, uint64_t hi);
uint64_t vt_fork(uint64_t v); /* concretise: explore every feasible value on its own path */
#endif
void     vt_assume_(int c);
void     vt_check_(int c, const char *msg, const char *file, int line);
void     vt_reach_(const char *msg);
#define vt_assume(c) vt_assume_(!!(c))
#define VT_CHECK(c, msg) vt_check_(!!(c), msg, __FILE__, __LINE__)
#define VT_REACH(msg) vt_reach_(msg)
#endif

#ifndef VT_SYM
#define vt_fork(v) (v)
static inline uint64_t vt_range(uint64_t lo, uint64_t hi)
{
    uint64_t v = vt_u64();
    vt_assume(v >= lo && v <= hi);
    return v;
}
#endif
static inline uint8_t  vt_u8(void)  { return (uint8_t)vt_range(0, 255); }
static inline int      vt_bool(void) { return (int)vt_range(0, 1); }
static inline uint32_t vt_u32(void) { return (uint32_t)vt_range(0, 0xffffffffULL); }
static inline int32_t  vt_i32(void) { return (int32_t)vt_u32(); }
static inline double   vt_f64(void) { union { uint64_t u; double d; } x; x.u = vt_u64(); return x.d; }
static inline float    vt_f32(void) { union { uint32_t u; float d; } x; x.u = vt_u32(); return x.d; }

/* NUL-terminated string of symbolic length <= max over [lo,hi], in a caller buffer of max+1 bytes.
 * Bytes after the terminator are zero. */
static inline size_t vt_str(char *b, size_t max, unsigned char lo, unsigned char hi)
{
    size_t i, n = (size_t)vt_fork(vt_range(0, max));
    for (i = 0; i < max; i++) {
        unsigned char c = (unsigned char)vt_range(lo, hi);
        b[i] = (i < n) ? (char)c : 0;
    }
    b[max] = 0;
    return n;
}
/* NULL-safe exactly sized heap copy of the first n bytes (so that over-reads are caught). */
static inline char *vt_dup(const char *b, size_t n)
{
    size_t i;
    char * r = (char *)malloc(n ? n : 1);
    vt_assume(r != NULL);
    for (i = 0; i < n; i++)
        r[i] = b[i];
    return r;
}
void harness(void);
#endif
