/* Equal keys hash equally; equality is value equality. */
#include "vt.h"
#include "pdc_hash_table.h"
#include "pdc_hash.h"
#include "pdc_compare.h"
extern int pdc_default_integer_equal_func(void *, void *), pdc_default_long_equal_func(void *, void *), pdc_default_uint64_equal_func(void *, void *);
extern unsigned pdc_default_integer_hash_func(void *), pdc_default_long_hash_func(void *), pdc_default_uint64_hash_func(void *);
void harness(void)
{
    int      i = vt_i32(), j = vt_i32();
    uint64_t a = vt_u64(), b = vt_u64();
    long     l = (long)a, m = (long)b;
    VT_CHECK((pdc_default_integer_equal_func(&i, &j) != 0) == (i == j), "integer equality");
    VT_CHECK(i != j || pdc_default_integer_hash_func(&i) == pdc_default_integer_hash_func(&j), "integer hash");
    VT_CHECK((pdc_default_long_equal_func(&l, &m) != 0) == (l == m), "long equality");
    VT_CHECK(l != m || pdc_default_long_hash_func(&l) == pdc_default_long_hash_func(&m), "long hash");
    VT_CHECK((pdc_default_uint64_equal_func(&a, &b) != 0) == (a == b), "uint64 equality");
    VT_CHECK(a != b || pdc_default_uint64_hash_func(&a) == pdc_default_uint64_hash_func(&b), "uint64 hash");
    VT_CHECK((int_equal(&i, &j) != 0) == (i == j) && (i != j || int_hash(&i) == int_hash(&j)), "int key functions");
    VT_CHECK((ui64_equal(&a, &b) != 0) == (a == b) && (a != b || ui64_hash(&a) == ui64_hash(&b)), "uint64 key functions");
    int c = int_compare(&i, &j);
    VT_CHECK(i < j ? c < 0 : i > j ? c > 0 : c == 0, "integer order");
    int u = ui64_compare(&a, &b);
    VT_CHECK(a < b ? u < 0 : a > b ? u > 0 : u == 0, "uint64 order");
    VT_CHECK((pointer_equal(&i, &j) == 0) && pointer_equal(&i, &i) && pointer_hash(&i) == pointer_hash(&i), "pointer key functions");
    int q = pointer_compare(&i, &j), q2 = pointer_compare(&j, &i);
    VT_CHECK(q != 0 && ((q < 0) != (q2 < 0)) && pointer_compare(&i, &i) == 0, "pointer order");
    VT_REACH("end");
}
