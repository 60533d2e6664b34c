#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
dnmx_ftable_entry c14_ftable_at(const struct dnmx_basic_type* t, dnmx_feature_id id);
const void* c14_get_at(const struct dnmx_basic_object* o, dnmx_mixin_index_t i);
void* c14_get_mut_at(struct dnmx_basic_object* o, dnmx_mixin_index_t i);
dnmx_sv c14_domain_name(dnmx_domain_handle d);
dnmx_domain_settings c14_domain_settings(dnmx_domain_handle d);
uintptr_t c14_domain_user_data(dnmx_domain_handle d);
void* c14_domain_context(dnmx_domain_handle d);
dnmx_mixin_info c14_make_mixin_info(void);
dnmx_feature_info c14_make_feature_info(void);
bool c14_canonical_order(const dnmx_mixin_info* a, const dnmx_mixin_info* b);
void c14_set_size(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a);
bool c14_copyable(dnmx_type_handle t);
void c14_init_info(dnmx_mixin_info* i, int kind);
extern const char* const c14_names[7];
extern const uint32_t c14_sizes[7];
extern const uint32_t c14_aligns[7];
extern const size_t c14_layout[];
#define C14_MAX_BLOCKS 512
struct c14_alloc_state {
    struct { void* p; const dnmx_mixin_info* info; } blocks[C14_MAX_BLOCKS];
    int n, fail_in, failed;
    const char* err;
};
extern struct c14_alloc_state c14_as;
dnmx_mixin_allocator_handle c14_make_allocator(void);
#ifdef __cplusplus
}
#endif
