/* Conversions between the in-memory and the wire form of regions and metadata lose nothing. */
#include "vt.h"
#include "pdc_client_server_common.h"

static uint64_t S[4], C[4];

static void
regions(void)
{
    size_t                  ndim = (size_t)vt_fork(vt_range(1, 4)), i;
    size_t                  unit = (size_t)vt_fork(vt_range(0, 2)) ? 4 : 1;
    region_list_t *         l    = (region_list_t *)calloc(1, sizeof(*l)), *l2, *l3;
    struct pdc_region_info  ri, *r2;
    region_info_transfer_t  t, u;
    uint64_t                n = 1;
    l2 = (region_list_t *)calloc(1, sizeof(*l));
    l3 = (region_list_t *)calloc(1, sizeof(*l));
    memset(&ri, 0, sizeof(ri));
    memset(&t, 0x5a, sizeof(t));
    memset(&u, 0x5a, sizeof(u));
    ri.ndim   = ndim;
    ri.offset = (uint64_t *)malloc(8 * ndim);
    ri.size   = (uint64_t *)malloc(8 * ndim);
    l->ndim   = ndim;
    for (i = 0; i < ndim; i++) {
        S[i]        = vt_u64();
        C[i]        = vt_u64();
        l->start[i] = ri.offset[i] = S[i];
        l->count[i] = ri.size[i] = C[i];
        n *= C[i];
    }
    VT_CHECK(PDC_get_region_size(l) == n, "the size of a region is the product of its counts");
    VT_CHECK(PDC_region_info_t_to_transfer(&ri, &t) == SUCCEED, "a region converts to its wire form");
    VT_CHECK(PDC_region_list_t_to_transfer(l, &u) == SUCCEED, "a region list entry converts to its wire form");
    VT_CHECK(t.ndim == ndim && u.ndim == ndim, "the wire form has the dimensions of the region");
    VT_CHECK(memcmp(&t, &u, sizeof(t)) == 0, "both wire forms of a region agree");
    VT_CHECK(PDC_is_same_region_transfer(&t, &u) == 0, "equal regions compare equal");
    PDC_init_region_list(l2);
    VT_CHECK(PDC_region_transfer_t_to_list_t(&t, l2) == SUCCEED, "the wire form converts to a region list entry");
    PDC_init_region_list(l3);
    VT_CHECK(PDC_region_info_to_list_t(&ri, l3) == SUCCEED, "a region converts to a region list entry");
    r2 = PDC_region_transfer_t_to_region_info(&t);
    VT_CHECK(r2 && r2->ndim == ndim && l2->ndim == ndim && l3->ndim == ndim, "dimensions survive");
    for (i = 0; i < ndim; i++) {
        VT_CHECK(l2->start[i] == S[i] && l2->count[i] == C[i], "a region survives the wire (list form)");
        VT_CHECK(l3->start[i] == S[i] && l3->count[i] == C[i], "a region survives the conversion to list form");
        VT_CHECK(r2->offset[i] == S[i] && r2->size[i] == C[i], "a region survives the wire (region form)");
    }
    VT_CHECK(PDC_is_same_region_list(l, l2) == 1, "equal region list entries compare equal");
    /* any difference is noticed */
    i = (size_t)vt_fork(vt_range(0, 7));
    if (i < 2 * ndim) {
        uint64_t d = vt_u64();
        vt_assume(d != 0);
        if (i < ndim)
            l2->start[i] += d;
        else
            l2->count[i - ndim] += d;
        VT_CHECK(PDC_is_same_region_list(l, l2) != 1, "different region list entries compare different");
        PDC_region_list_t_to_transfer(l2, &u);
        VT_CHECK(PDC_is_same_region_transfer(&t, &u) != 0, "different regions compare different");
    }
    memset(&u, 0x5a, sizeof(u));
    VT_CHECK(PDC_region_info_t_to_transfer_unit(&ri, &u, unit) == SUCCEED, "a region converts to bytes");
    PDC_region_transfer_t_to_list_t(&u, l3);
    for (i = 0; i < ndim; i++)
        VT_CHECK(l3->start[i] == S[i] * unit && l3->count[i] == C[i] * unit, "the byte form is the element form times the unit");
    l->offset = vt_u64();
    l->data_size = vt_u64();
    VT_CHECK(PDC_region_list_t_deep_cp(l, l3) == SUCCEED && l3->ndim == ndim && l3->offset == l->offset && l3->data_size == l->data_size,
             "the copy of a region list entry has its extent");
    for (i = 0; i < ndim; i++)
        VT_CHECK(l3->start[i] == l->start[i] && l3->count[i] == l->count[i], "the copy of a region list entry is equal");
    VT_CHECK(l3->next == NULL && l3->prev == NULL, "the copy is in no list");
}

#define EQ(f) (a->f == b->f)
static void
metadata(void)
{
    pdc_metadata_t *        a = (pdc_metadata_t *)calloc(1, sizeof(*a)), *b = (pdc_metadata_t *)calloc(1, sizeof(*b));
    pdc_metadata_transfer_t t;
    memset(&t, 0x5a, sizeof(t));
    PDC_metadata_init(a);
    PDC_metadata_init(b);
    a->user_id = vt_i32(); a->time_step = vt_i32(); a->data_type = (pdc_var_type_t)(int8_t)vt_u8(); a->obj_id = vt_u64(); a->cont_id = vt_u64();
    a->data_server_id = vt_u32(); a->region_partition = vt_u8(); a->consistency = vt_u8(); a->ndim = vt_u64();
    for (int i = 0; i < 4; i++) {
        a->dims[i]               = vt_u64();
        a->current_state.dims[i] = vt_u64();
    }
    a->transform_state = vt_i32(); a->current_state.storage_order = (int8_t)vt_u8(); a->current_state.dtype = (pdc_var_type_t)(int8_t)vt_u8();
    a->current_state.ndim = vt_u64(); a->current_state.meta_index = vt_i32();
    vt_str(a->app_name, 2, 1, 255);
    vt_str(a->obj_name, 1, 1, 255);
    a->tags[0] = (char)vt_u8();
    vt_str(a->data_location, 1, 1, 255);
    VT_CHECK(PDC_metadata_t_to_transfer_t(a, &t) == SUCCEED, "metadata converts to its wire form");
    VT_CHECK(PDC_transfer_t_to_metadata_t(&t, b) == SUCCEED, "the wire form converts to metadata");
    VT_CHECK(EQ(user_id) && EQ(time_step) && EQ(data_type) && EQ(obj_id) && EQ(cont_id), "identity of the object survives");
    VT_CHECK(EQ(data_server_id) && EQ(region_partition) && EQ(consistency), "placement and consistency survive");
    VT_CHECK(EQ(ndim) && EQ(dims[0]) && EQ(dims[1]) && EQ(dims[2]) && EQ(dims[3]), "the shape survives");
    VT_CHECK(strcmp(a->app_name, b->app_name) == 0 && strcmp(a->obj_name, b->obj_name) == 0 && strcmp(a->tags, b->tags) == 0 &&
                 strcmp(a->data_location, b->data_location) == 0, "the names survive");
    VT_CHECK(EQ(transform_state), "the transform state survives");
    if (a->transform_state)
        VT_CHECK(EQ(current_state.storage_order) && EQ(current_state.dtype) && EQ(current_state.ndim) && EQ(current_state.meta_index) &&
                     EQ(current_state.dims[0]) && EQ(current_state.dims[1]) && EQ(current_state.dims[2]) && EQ(current_state.dims[3]),
                 "the transformed shape survives");
    VT_CHECK(PDC_metadata_cmp(a, b) == 0, "metadata compares equal to its copy");
}

static void
tags(void)
{
    pdc_kvtag_t k, *c = NULL;
    unsigned    i;
    char        nm[3];
    vt_str(nm, 2, 1, 255);
    k.name  = nm;
    k.size  = (uint32_t)vt_fork(vt_range(0, 3));
    k.type  = (pdc_var_type_t)(int8_t)vt_u8();
    k.value = malloc(k.size + 1);
    for (i = 0; i < k.size; i++)
        ((char *)k.value)[i] = (char)vt_u8();
    VT_CHECK(PDC_kvtag_dup(&k, &c) == SUCCEED && c, "a tag can be copied");
    VT_CHECK(strcmp(c->name, nm) == 0 && c->name != nm && c->size == k.size && c->type == k.type && c->value != k.value, "the copy of a tag is its own");
    for (i = 0; i < k.size; i++)
        VT_CHECK(((char *)c->value)[i] == ((char *)k.value)[i], "the copy of a tag has its value");
    PDC_free_kvtag(&c);
    VT_CHECK(c == NULL, "a freed tag is gone");
}

static void
sizes(void)
{
    int t = (int)vt_fork(vt_range(0, PDC_TYPE_COUNT - 1));
    if (t != PDC_STRING && t != PDC_VOID_PTR)
        VT_CHECK(PDC_get_var_type_size((pdc_var_type_t)t) == (int)DataTypeSizes[t], "the element size of a type is the size of that C type");
}

void
harness(void)
{
    switch (vt_fork(vt_range(0, 3))) {
        case 0: regions(); break;
        case 1: metadata(); break;
        case 2: tags(); break;
        default: sizes();
    }
    VT_REACH("end");
}
