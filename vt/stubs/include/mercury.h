/* Stand-in for the Mercury headers (not installed here): the types, constants and prototypes that PDC uses.
 * The proc layer (hg_proc_*) is real enough to encode into and decode from a byte buffer. */
#ifndef VT_MERCURY_H
#define VT_MERCURY_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#define HG_VERSION_MAJOR 2
#define HG_VERSION_MINOR 2
#define HG_VERSION_PATCH 0
#define HG_INLINE inline
#define HG_FALLTHROUGH() /* fall through */
typedef uint8_t  hg_bool_t;
typedef uint64_t hg_size_t;
typedef uint64_t hg_id_t;
typedef int8_t   hg_int8_t;
typedef int16_t  hg_int16_t;
typedef int32_t  hg_int32_t;
typedef int64_t  hg_int64_t;
typedef uint8_t  hg_uint8_t;
typedef uint16_t hg_uint16_t;
typedef uint32_t hg_uint32_t;
typedef uint64_t hg_uint64_t;
typedef uint64_t hg_ptr_t;
#define HG_TRUE  1
#define HG_FALSE 0
#define HG_UTIL_SUCCESS 0
#define HG_UTIL_FAIL (-1)
#define HG_UTIL_TRUE 1
#define HG_UTIL_FALSE 0

typedef enum hg_return {
    HG_SUCCESS = 0, HG_PERMISSION, HG_NOENTRY, HG_INTERRUPT, HG_AGAIN, HG_NOMEM, HG_ACCESS, HG_FAULT, HG_BUSY, HG_EXIST,
    HG_NODEV, HG_INVALID_ARG, HG_PROTOCOL_ERROR, HG_OVERFLOW, HG_MSGSIZE, HG_PROTONOSUPPORT, HG_OPNOTSUPPORTED,
    HG_ADDRINUSE, HG_ADDRNOTAVAIL, HG_HOSTUNREACH, HG_TIMEOUT, HG_CANCELED, HG_CHECKSUM_ERROR, HG_NA_ERROR, HG_OTHER_ERROR
} hg_return_t;
#define HG_NOMEM_ERROR HG_NOMEM
#define HG_INVALID_PARAM HG_INVALID_ARG

typedef enum hg_cb_type { HG_CB_LOOKUP, HG_CB_FORWARD, HG_CB_RESPOND, HG_CB_BULK } hg_cb_type_t;
typedef enum hg_op { HG_UNDEF, HG_REGISTER, HG_FORWARD, HG_RESPOND, HG_BULK } hg_op_t;
typedef enum hg_bulk_op { HG_BULK_PUSH, HG_BULK_PULL } hg_bulk_op_t;
#define HG_BULK_READ_ONLY  1
#define HG_BULK_WRITE_ONLY 2
#define HG_BULK_READWRITE  3

typedef struct hg_class {
    void *data;
} hg_class_t;
typedef struct hg_context {
    hg_class_t *cls;
} hg_context_t;
typedef struct hg_addr *  hg_addr_t;
typedef struct hg_op_id * hg_op_id_t;
struct hg_bulk;
typedef struct hg_bulk *  hg_bulk_t;
struct hg_handle;
typedef struct hg_handle *hg_handle_t;
struct vt_proc;
typedef struct vt_proc *  hg_proc_t;
#define HG_ADDR_NULL   ((hg_addr_t)0)
#define HG_OP_ID_NULL  ((hg_op_id_t)0)
#define HG_OP_ID_IGNORE ((hg_op_id_t *)1)
#define HG_HANDLE_NULL ((hg_handle_t)0)
#define HG_BULK_NULL   ((hg_bulk_t)0)
#define HG_MAX_IDLE_TIME (3600 * 1000)

struct hg_info {
    hg_class_t *  hg_class;
    hg_context_t *context;
    hg_addr_t     addr;
    hg_id_t       id;
    uint8_t       context_id;
};
struct hg_cb_info_lookup { hg_addr_t addr; };
struct hg_cb_info_forward { hg_handle_t handle; };
struct hg_cb_info_respond { hg_handle_t handle; };
struct hg_cb_info_bulk {
    hg_addr_t origin_addr; hg_bulk_t origin_handle; size_t origin_offset;
    hg_bulk_t local_handle; size_t local_offset; size_t size; hg_bulk_op_t op;
};
struct hg_cb_info {
    union {
        struct hg_cb_info_lookup  lookup;
        struct hg_cb_info_forward forward;
        struct hg_cb_info_respond respond;
        struct hg_cb_info_bulk    bulk;
    } info;
    void *        arg;
    hg_cb_type_t  type;
    hg_return_t   ret;
};
typedef hg_return_t (*hg_cb_t)(const struct hg_cb_info *);
typedef hg_return_t (*hg_rpc_cb_t)(hg_handle_t);
typedef hg_return_t (*hg_proc_cb_t)(hg_proc_t, void *);

#define NA_STRING_INFO_LEN 256
#define NA_NO_BLOCK 1
#define NA_TRUE 1
struct na_init_info {
    const char *ip_subnet; const char *auth_key; size_t max_unexpected_size, max_expected_size;
    uint8_t max_contexts; uint8_t progress_mode; uint8_t addr_format;
};
struct hg_init_info {
    struct na_init_info na_init_info; void *na_class; uint32_t request_post_init, request_post_incr;
    hg_bool_t auto_sm, no_bulk_eager, no_loopback, stats;
};
typedef struct na_init_info na_init_info_t;

hg_class_t *  HG_Init(const char *, hg_bool_t);
hg_class_t *  HG_Init_opt(const char *, hg_bool_t, const struct hg_init_info *);
hg_return_t   HG_Finalize(hg_class_t *);
void          HG_Cleanup(void);
hg_return_t   HG_Version_get(unsigned *, unsigned *, unsigned *);
hg_context_t *HG_Context_create(hg_class_t *);
hg_return_t   HG_Context_destroy(hg_context_t *);
hg_class_t *  HG_Context_get_class(const hg_context_t *);
hg_return_t   HG_Class_set_handle_create_callback(hg_class_t *, hg_return_t (*)(hg_handle_t, void *), void *);
hg_return_t   HG_Set_data(hg_handle_t, void *, void (*)(void *));
void *        HG_Get_data(hg_handle_t);
hg_return_t   HG_Registered_disable_response(hg_class_t *, hg_id_t, hg_bool_t);
hg_id_t       HG_Register_name(hg_class_t *, const char *, hg_proc_cb_t, hg_proc_cb_t, hg_rpc_cb_t);
hg_return_t   HG_Addr_lookup(hg_context_t *, hg_cb_t, void *, const char *, hg_op_id_t *);
hg_return_t   HG_Addr_lookup2(hg_class_t *, const char *, hg_addr_t *);
hg_return_t   HG_Addr_free(hg_class_t *, hg_addr_t);
hg_return_t   HG_Addr_self(hg_class_t *, hg_addr_t *);
hg_return_t   HG_Addr_dup(hg_class_t *, hg_addr_t, hg_addr_t *);
hg_return_t   HG_Addr_to_string(hg_class_t *, char *, hg_size_t *, hg_addr_t);
hg_return_t   HG_Create(hg_context_t *, hg_addr_t, hg_id_t, hg_handle_t *);
hg_return_t   HG_Destroy(hg_handle_t);
hg_return_t   HG_Ref_incr(hg_handle_t);
const struct hg_info *HG_Get_info(hg_handle_t);
hg_return_t   HG_Get_input(hg_handle_t, void *);
hg_return_t   HG_Free_input(hg_handle_t, void *);
hg_return_t   HG_Get_output(hg_handle_t, void *);
hg_return_t   HG_Free_output(hg_handle_t, void *);
hg_return_t   HG_Forward(hg_handle_t, hg_cb_t, void *, void *);
hg_return_t   HG_Respond(hg_handle_t, hg_cb_t, void *, void *);
hg_return_t   HG_Progress(hg_context_t *, unsigned);
hg_return_t   HG_Trigger(hg_context_t *, unsigned, unsigned, unsigned *);
const char *  HG_Error_to_string(hg_return_t);
hg_return_t   HG_Bulk_create(hg_class_t *, hg_uint32_t, void **, const hg_size_t *, hg_uint8_t, hg_bulk_t *);
hg_return_t   HG_Bulk_free(hg_bulk_t);
hg_return_t   HG_Bulk_ref_incr(hg_bulk_t);
hg_return_t   HG_Bulk_access(hg_bulk_t, hg_size_t, hg_size_t, hg_uint8_t, hg_uint32_t, void **, hg_size_t *, hg_uint32_t *);
hg_size_t     HG_Bulk_get_size(hg_bulk_t);
hg_uint32_t   HG_Bulk_get_segment_count(hg_bulk_t);
hg_return_t   HG_Bulk_transfer(hg_context_t *, hg_cb_t, void *, hg_bulk_op_t, hg_addr_t, hg_bulk_t, hg_size_t, hg_bulk_t, hg_size_t, hg_size_t, hg_op_id_t *);

/* ---- proc ---- */
typedef enum { HG_ENCODE, HG_DECODE, HG_FREE } hg_proc_op_t;
struct vt_proc {
    hg_proc_op_t op;
    uint8_t *    buf;
    size_t       pos, cap;
};
static inline hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return p->op; }
static inline hg_return_t hg_proc_bytes(hg_proc_t p, void *d, size_t n)
{
    if (p->op == HG_FREE)
        return HG_SUCCESS;
    if (p->pos + n > p->cap)
        return HG_OVERFLOW;
    if (p->op == HG_ENCODE)
        memcpy(p->buf + p->pos, d, n);
    else
        memcpy(d, p->buf + p->pos, n);
    p->pos += n;
    return HG_SUCCESS;
}
#define hg_proc_raw(p, d, n) hg_proc_bytes(p, (void *)(d), n)
#define hg_proc_memcpy(p, d, n) hg_proc_bytes(p, (void *)(d), n)
#define VT_PROC(T) static inline hg_return_t hg_proc_##T(hg_proc_t p, void *d) { return hg_proc_bytes(p, d, sizeof(T)); }
VT_PROC(int8_t) VT_PROC(int16_t) VT_PROC(int32_t) VT_PROC(int64_t)
VT_PROC(uint8_t) VT_PROC(uint16_t) VT_PROC(uint32_t) VT_PROC(uint64_t)
VT_PROC(hg_size_t) VT_PROC(hg_id_t) VT_PROC(hg_bool_t)
VT_PROC(hg_int8_t) VT_PROC(hg_int16_t) VT_PROC(hg_int32_t) VT_PROC(hg_int64_t)
VT_PROC(hg_uint8_t) VT_PROC(hg_uint16_t) VT_PROC(hg_uint32_t) VT_PROC(hg_uint64_t)
static inline hg_return_t hg_proc_hg_bulk_t(hg_proc_t p, void *d) { return hg_proc_bytes(p, d, sizeof(hg_bulk_t)); }

typedef struct vt_hg_request hg_request_t;
#endif
