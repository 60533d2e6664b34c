#include "c16_c.h"
#include <stdlib.h>
int c16_cmp(dnmx_sv a, dnmx_sv b) { return dnmx_sv_cmp(a, b); }
int c16_eq(dnmx_sv a, dnmx_sv b) { return dnmx_sv_eq(a, b); }
int c16_starts_with(dnmx_sv a, const char* p) { return dnmx_sv_starts_with(a, p); }
const char* c16_find_first(dnmx_sv a, char q) { return dnmx_sv_find_first(a, q); }
const char* c16_find_last(dnmx_sv a, char q) { return dnmx_sv_find_last(a, q); }
int c16_is_null(dnmx_sv a) { return dnmx_sv_is_null(a); }
int c16_is_empty(dnmx_sv a) { return dnmx_sv_is_empty(a); }
size_t c16_len(dnmx_sv a) { return dnmx_sv_len(a); }
dnmx_sv c16_make_be(const char* b, const char* e) { return dnmx_make_sv_be(b, e); }
dnmx_sv c16_make_len(const char* b, size_t n) { return dnmx_make_sv_len(b, n); }
dnmx_sv c16_make_str(const char* s) { return dnmx_make_sv_str(s); }
dnmx_sv c16_lit(int i) {
    switch (i) {
    case 0: return dnmx_make_sv_lit("");
    case 1: return dnmx_make_sv_lit("a");
    case 2: return dnmx_make_sv_lit("a\0b");
    case 3: return dnmx_make_sv_lit("\0");
    default: return dnmx_make_sv_lit("\xff\x80z");
    }
}
static int less(const void* a, const void* b) { return dnmx_sv_cmp(*(const dnmx_sv*)a, *(const dnmx_sv*)b); }
void c16_sort(dnmx_sv* v, size_t n) { qsort(v, n, sizeof(dnmx_sv), less); }
