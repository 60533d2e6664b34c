/* C14: the C headers as a C translation unit sees them */
#include <dnmx/domain.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/mutate.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mixin_info.h>
#include <dnmx/mixin_info_util.h>
#include <dnmx/feature_info.h>
#include <dnmx/feature_for_mixin.h>
#include <dnmx/mutation_rule_info.h>
#include <dnmx/type_class.h>
#include <stddef.h>
#include <stdlib.h>
#include "c14_c.h"

dnmx_ftable_entry c14_ftable_at(const struct dnmx_basic_type* t, dnmx_feature_id id) { return dnmx_ftable_at(t, id); }
const void* c14_get_at(const struct dnmx_basic_object* o, dnmx_mixin_index_t i) { return dnmx_object_unchecked_get_at(o, i); }
void* c14_get_mut_at(struct dnmx_basic_object* o, dnmx_mixin_index_t i) { return dnmx_object_unchecked_get_mut_at(o, i); }
dnmx_sv c14_domain_name(dnmx_domain_handle d) { return dnmx_get_domain_name(d); }
dnmx_domain_settings c14_domain_settings(dnmx_domain_handle d) { return dnmx_get_domain_settings(d); }
uintptr_t c14_domain_user_data(dnmx_domain_handle d) { return dnmx_get_domain_user_data(d); }
void* c14_domain_context(dnmx_domain_handle d) { return dnmx_get_domain_context(d); }
dnmx_mixin_info c14_make_mixin_info(void) { return dnmx_make_mixin_info(); }
dnmx_feature_info c14_make_feature_info(void) { return dnmx_make_feature_info(); }
bool c14_canonical_order(const dnmx_mixin_info* a, const dnmx_mixin_info* b) { return dnmx_mixin_canonical_order(a, b); }
void c14_set_size(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a) { dnmx_set_mixin_info_size_and_alignment(i, s, a); }
bool c14_copyable(dnmx_type_handle t) { return dnmx_type_is_copyable(t); }

static void move_copy(const dnmx_mixin_info* info, void* ptr, void* src) { dnmx_mixin_common_move_func_copy(info, ptr, src); }

typedef struct { char b[1]; } c14_byte;
typedef struct { void* p; } c14_ptr;
typedef struct { double d[3]; } c14_three;
typedef struct { _Alignas(32) char b[40]; } c14_wide;
typedef struct { char b[3]; } c14_odd;
typedef struct { _Alignas(128) char b[128]; } c14_page;
void c14_init_info(dnmx_mixin_info* i, int kind) {
    switch (kind) {
    case 0: DNMX_COMMON_INIT_MI(*i, c14_byte); break;
    case 1: DNMX_COMMON_INIT_MI(*i, c14_ptr); break;
    case 2: DNMX_COMMON_INIT_MI(*i, c14_three); break;
    case 3: DNMX_COMMON_INIT_MI(*i, c14_wide); break;
    case 4: DNMX_COMMON_INIT_MI(*i, c14_odd); i->move_init = move_copy; break;
    case 5: DNMX_COMMON_INIT_MI(*i, c14_page); break;
    default: DNMX_COMMON_INIT_EMPTY_MI(*i, "c14_empty"); break;
    }
}
const char* const c14_names[7] = {"c14_byte", "c14_ptr", "c14_three", "c14_wide", "c14_odd", "c14_page", "c14_empty"};
const uint32_t c14_sizes[7] = {1, sizeof(void*), 24, 64, 3, 128, 0};
const uint32_t c14_aligns[7] = {1, sizeof(void*), _Alignof(double), 32, 1, 128, 0};

#define L(t) sizeof(t)
#define O(t, m) offsetof(t, m)
const size_t c14_layout[] = {
#include "c14_layout.inc"
    0
};
#undef L
#undef O

/* an allocator by C functions which knows what is out */
struct c14_alloc_state c14_as;
static void* c14_alloc(const dnmx_mixin_info* info) {
    if (c14_as.fail_in >= 0 && c14_as.fail_in-- == 0) { ++c14_as.failed; return NULL; }
    size_t al = info->obj_buf_alignment_and_mixin_offset < 16 ? 16 : info->obj_buf_alignment_and_mixin_offset;
    size_t sz = (info->obj_buf_size + al - 1) / al * al;
    void* p = aligned_alloc(al, sz ? sz : al);
    if (c14_as.n == C14_MAX_BLOCKS) { c14_as.err = "too many blocks"; return p; }
    c14_as.blocks[c14_as.n].p = p; c14_as.blocks[c14_as.n].info = info; ++c14_as.n;
    return p;
}
static void c14_dealloc(void* p, const dnmx_mixin_info* info) {
    for (int i = 0; i < c14_as.n; ++i) if (c14_as.blocks[i].p == p) {
        if (c14_as.blocks[i].info != info) c14_as.err = "a block is given back for another mixin";
        c14_as.blocks[i] = c14_as.blocks[--c14_as.n];
        free(p);
        return;
    }
    c14_as.err = "a block which is not out is given back";
}
dnmx_mixin_allocator_handle c14_make_allocator(void) { return dnmx_create_mixin_allocator(c14_alloc, c14_dealloc); }
