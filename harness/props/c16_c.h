/* the string view functions as C code sees them */
#pragma once
#include <dnmx/bits/sv.h>
#if defined(__cplusplus)
extern "C" {
#endif
int c16_cmp(dnmx_sv a, dnmx_sv b);
int c16_eq(dnmx_sv a, dnmx_sv b);
int c16_starts_with(dnmx_sv a, const char* p);
const char* c16_find_first(dnmx_sv a, char q);
const char* c16_find_last(dnmx_sv a, char q);
int c16_is_null(dnmx_sv a);
int c16_is_empty(dnmx_sv a);
size_t c16_len(dnmx_sv a);
dnmx_sv c16_make_be(const char* b, const char* e);
dnmx_sv c16_make_len(const char* b, size_t n);
dnmx_sv c16_make_str(const char* s);
dnmx_sv c16_lit(int i);
void c16_sort(dnmx_sv* v, size_t n);
#if defined(__cplusplus)
}
#endif
