// C14: the C headers compiled as C against the C++ view of the same things; random programs through the C interface only.
#include "common.hpp"
#include <dynamix/mixin_allocator.hpp>
#include <dnmx/domain.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/mutate.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mixin_common_funcs.h>
#include <cstddef>
#include <cstdlib>
extern "C" {
#include "c14_c.h"
}

// the global allocation functions, which may be told to fail while a C function runs and know what it allocated
namespace c14n {
bool armed = false;
long fail_in = -1, failed = 0;
struct { void* p; } tab[1 << 14];
long live = 0;
size_t slot(void* p) { return (uintptr_t(p) >> 4) * 0x9e3779b97f4a7c15ull >> 50; }
void put(void* p) { size_t i = slot(p); while (tab[i].p && tab[i].p != (void*)1) i = (i + 1) & 16383; tab[i].p = p; ++live; }
void take(void* p) { size_t i = slot(p); for (int n = 0; tab[i].p && n < 16384; ++n, i = (i + 1) & 16383) if (tab[i].p == p) { tab[i].p = (void*)1; --live; return; } }
void* get(size_t n, size_t a) {
    if (armed && fail_in >= 0 && fail_in-- == 0) { ++failed; throw std::bad_alloc(); }
    if (a < 16) a = 16;
    void* p = a <= 16 ? malloc(n ? n : 1) : aligned_alloc(a, (n + a - 1) / a * a);
    if (!p) throw std::bad_alloc();
    if (armed) put(p);
    return p;
}
void give(void* p) noexcept { if (!p) return; if (live) take(p); free(p); }
}
void* operator new(size_t n) { return c14n::get(n, 1); }
void* operator new[](size_t n) { return c14n::get(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return c14n::get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return c14n::get(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return c14n::get(n, 1); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return c14n::get(n, 1); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { c14n::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { c14n::give(p); }
void operator delete(void* p) noexcept { c14n::give(p); }
void operator delete[](void* p) noexcept { c14n::give(p); }
void operator delete(void* p, size_t) noexcept { c14n::give(p); }
void operator delete[](void* p, size_t) noexcept { c14n::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { c14n::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { c14n::give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { c14n::give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { c14n::give(p); }

namespace c14 {
using namespace pt;
const type& T(dnmx_type_handle h) { return *type::from_c_handle(h); }

// ---------------------------------------------------------------- the headers as C
#define L(t) sizeof(t)
#define O(t, m) offsetof(t, m)
const size_t layout[] = {
#include "c14_layout.inc"
    0
};
#undef L
#undef O
int def_pl;

void inlines(vp::Src& s) {
    for (size_t i = 0; i < sizeof layout / sizeof layout[0]; ++i) VEQ(c14_layout[i], layout[i], "size or offset number " << i << " of the C structures");
    // names, ids and priorities
    const int N = 5;
    bytes nm[N]; mixin_info mi[N];
    for (int i = 0; i < N; ++i) {
        mi[i] = c14_make_mixin_info();
        nm[i].set(gen_name(s)); mi[i].name = nm[i].sv(); mi[i].order_priority = int32_t(s.range(-1, 1));
    }
    { auto a = c14_make_mixin_info(); auto b = dnmx_make_mixin_info();
      VCHECK(a.id == b.id && a.id.i == dnmx_invalid_id && !a.dom && a.name.empty() && !a.size && !a.alignment && a.obj_buf_size == sizeof(void*) && a.obj_buf_alignment_and_mixin_offset == sizeof(void*)
          && !a.init && !a.copy_init && !a.move_init && !a.copy_asgn && !a.move_asgn && !a.destroy && !a.equals && !a.compare && !a.allocator && !a.mixin_class && !a.type_info_class && !a.user_data && !a.features && !a.num_features && !a.order_priority && !a.force_external && !a.dependency, "an empty mixin info of C");
      auto f = c14_make_feature_info(); VCHECK(f.id.i == dnmx_invalid_id && f.name.empty() && !f.allow_clashes && !f.default_payload && !f.feature_class, "an empty feature info of C"); }
    {
        uint32_t sz = uint32_t(s.draw(3) ? s.draw(300) : s.draw(0x7fffffff)), al = 1u << s.draw(20);
        mixin_info a = dnmx_make_mixin_info(), b = a;
        a.set_size_alignment(sz, al); c14_set_size(&b, sz, al);
        VEQ(a.size, b.size, "size"); VEQ(a.alignment, b.alignment, "alignment"); VEQ(a.obj_buf_size, b.obj_buf_size, "buffer size"); VEQ(a.obj_buf_alignment_and_mixin_offset, b.obj_buf_alignment_and_mixin_offset, "buffer alignment");
        uint32_t off = std::max<uint32_t>(al, sizeof(void*));
        VEQ(b.obj_buf_alignment_and_mixin_offset, off, "offset of the mixin"); VEQ(b.obj_buf_size, sz + off, "buffer size");
    }
    domain_settings set = domain_settings_builder();
    set.canonicalize_types = s.flip(); set.allow_duplicate_mixin_names = true; set.allow_duplicate_feature_names = s.flip();
    bytes dn; dn.set(gen_name(s));
    uintptr_t ud = s.raw(); void* ctx = (void*)uintptr_t(s.draw(1000));
    domain d(dn.view(), set, ud, ctx);
    auto hd = d.to_c_hanlde();
    VCHECK(c14_domain_name(hd).to_std() == dn.view(), "name of the domain in C");
    auto gs = c14_domain_settings(hd);
    VCHECK(gs.canonicalize_types == set.canonicalize_types && gs.allow_duplicate_mixin_names == set.allow_duplicate_mixin_names && gs.allow_duplicate_feature_names == set.allow_duplicate_feature_names, "settings in C");
    VCHECK(c14_domain_user_data(hd) == ud && c14_domain_context(hd) == ctx && d.user_data == ud && d.context == ctx, "user data in C");
    dnmx_set_domain_user_data(hd, ud + 1); dnmx_set_domain_context(hd, &d);
    VCHECK(c14_domain_user_data(hd) == ud + 1 && c14_domain_context(hd) == &d && d.user_data == ud + 1 && d.context == &d, "user data in C");
    // features and types
    const int F = 4;
    feature_info fi[F]; bytes fn[F]; feature_for_mixin ff[N][F];
    for (int f = 0; f < F; ++f) { fi[f] = dnmx_make_feature_info(); fn[f].set("f" + std::to_string(f)); fi[f].name = fn[f].sv(); fi[f].allow_clashes = true; if (s.flip()) fi[f].default_payload = &def_pl; }
    while (s.chance(1, 2)) { int f = int(s.index(F)); if (fi[f].id == invalid_feature_id) d.register_feature(fi[f]); }
    for (int i = 0; i < N; ++i) {
        int kind = int(s.draw(7)); auto n = mi[i].name; auto p = mi[i].order_priority;
        c14_init_info(&mi[i], kind);
        VCHECK(mi[i].name.to_std() == c14_names[kind], "name of an info made by the macro"); VEQ(mi[i].size, c14_sizes[kind], "size"); VEQ(mi[i].alignment, c14_aligns[kind], "alignment");
        mi[i].name = n; mi[i].order_priority = p;
        mi[i].force_external = s.chance(1, 3);
        uint32_t k = 0;
        for (int f = 0; f < F; ++f) if (s.flip()) ff[i][k++] = {&fi[f], (void*)uintptr_t(16 * (i * F + f) + 16), int32_t(s.range(-1, 1)), int32_t(s.range(-1, 1))};
        mi[i].features = ff[i]; mi[i].num_features = k;
        d.register_mixin(mi[i]);
    }
    for (auto& a : mi) for (auto& b : mi) VEQ(c14_canonical_order(&a, &b), dnmx_mixin_canonical_order(&a, &b), "canonical order in C");
    std::vector<const mixin_info*> q; uint32_t used = 0;
    for (int n = int(s.draw(N + 1)); n--; ) { auto i = s.index(N); if (!(used >> i & 1)) { used |= 1u << i; q.push_back(&mi[i]); } }
    auto& t = d.get_type(q);
    VLOG("a type of " << q.size() << " mixins");
    if (q.size() > 1) s.interesting();
    auto ids = [&](auto&& f) { for (uint32_t i = 0; i < F + 3; ++i) f(feature_id{i}); f(invalid_feature_id); f(feature_id{0x80000000u}); f(feature_id{uint32_t(s.raw())}); };
    ids([&](feature_id id) {
        auto a = c14_ftable_at(&t, id); auto b = t.ftable_at(id);
        VCHECK(a.begin == b.begin && a.end == b.end && a.top_bid_back == b.top_bid_back, "feature table entry of id " << id.i << " in C");
        // and what it should be
        std::vector<const feature_for_mixin*> impl;
        for (auto m : t.mixins) for (auto& x : m->features_span()) if (x.info->id == id) impl.push_back(&x);
        VEQ(size_t(a.end - a.begin), impl.size(), "payloads of id " << id.i);
        VEQ(bool(a.begin), !impl.empty(), "entry of id " << id.i);
        for (auto p = a.begin; p != a.end; ++p) {
            VCHECK(std::find(impl.begin(), impl.end(), p->data) != impl.end(), "a payload of the entry");
            VCHECK(p->payload == p->data->payload, "payload");
            auto fs = t.mixins[p->mixin_index]->features_span();
            VCHECK(p->data >= fs.data() && p->data < fs.data() + fs.size(), "mixin of a payload");
            if (p != a.begin) VCHECK(p[-1].data->bid >= p->data->bid, "order of payloads");
        }
        if (a.begin) { auto tb = a.begin; while (tb + 1 != a.end && tb[1].data->bid == a.begin->data->bid) ++tb; VCHECK(a.top_bid_back == tb, "last of the top bid"); }
    });
    VEQ(c14_copyable(&t), t.copy_constructible() && t.copy_assignable(), "copyable in C");
    object o(t);
    struct basic_view { const void* type; dnmx_object_mixin_data* data; };
    auto ho = o.to_c_hanlde();
    for (mixin_index_t i = 0; i < t.num_mixins(); ++i) {
        VCHECK(c14_get_at(ho, i) == o.get_at(i) && c14_get_mut_at(ho, i) == o.get_at(i), "mixin in C");
        VCHECK(dnmx_object_get_at(ho, i) == o.get_at(i), "mixin in C");
        VCHECK(object_of(c14_get_at(ho, i)) == &o, "object of a mixin");
    }
    o.clear();
    for (auto& m : mi) d.unregister_mixin(m);
}

// ---------------------------------------------------------------- programs
struct Obj { dnmx_object_handle h; dnmx_type_handle t; std::vector<std::pair<int, std::string>> mix; bool sealed; };
enum CbKind { cb_ok, cb_err, cb_std, cb_odd, cb_count };
struct CbState { int runs = 0; std::string wrong; const std::vector<const mixin_info*>* target = nullptr; const void* ttype = nullptr; const void* stype = nullptr; bool init = false; } cbs;
dnmx_error_return_t cb_body(const dnmx_mutate_func_args& a, bool init) {
    ++cbs.runs;
    auto bad = [&](const char* w) { if (cbs.wrong.empty()) cbs.wrong = w; };
    if (!a.info || !a.mixin_buf) bad("no mixin");
    if (!a.target_type || T(a.target_type).mixins[a.target_index] != a.info) bad("target index");
    if (init) { if (a.source_type) {} }
    else if (!a.source_type || T(a.source_type).mixins[a.source_index] != a.info) bad("source index");
    int kind = int(a.user_data & 7); unsigned char v = (unsigned char)(a.user_data >> 8);
    if (kind == cb_err) return -42;
    if (kind == cb_std) throw std::runtime_error("callback");
    if (kind == cb_odd) throw 17;
    memset(a.mixin_buf, v, a.info->size);
    return dnmx_result_success;
}
dnmx_error_return_t cb_init(dnmx_mutate_func_args a) { return cb_body(a, true); }
dnmx_error_return_t cb_update(dnmx_mutate_func_args a) { return cb_body(a, false); }

struct Arm { // a C function runs
    Arm(long f) { c14n::fail_in = f; c14n::failed = 0; c14_as.failed = 0; c14n::armed = true; }
    ~Arm() { c14n::armed = false; c14n::fail_in = -1; }
};

void programs(vp::Src& s) {
    const int N = 5;
    c14_as.n = 0; c14_as.fail_in = -1; c14_as.failed = 0; c14_as.err = nullptr;
    memset(c14n::tab, 0, sizeof c14n::tab); c14n::live = 0;
    cbs = CbState();
    long fault = -1;
#define CALL(expr) [&] { Arm arm(fault); try { return expr; } catch (...) { arm.~Arm(); VFAIL("an exception leaves " #expr); } }()
#define CALLV(expr) [&] { Arm arm(fault); try { expr; } catch (...) { arm.~Arm(); VFAIL("an exception leaves " #expr); } }()
    auto failed = [&] { return c14n::failed || c14_as.failed; };
    dnmx_domain_settings set = {};
    set.canonicalize_types = s.chance(1, 4);
    bytes dn; dn.set(gen_name(s));
    dnmx_domain_handle hd = nullptr;
    for (int k = 0; !hd; ++k) {
        fault = k < 2 && s.chance(1, 3) ? long(s.draw(6)) : -1;
        auto sv = s.chance(1, 8) ? dnmx_make_sv_str(nullptr) : dn.sv();
        hd = CALL(dnmx_create_domain(sv, set, 7, &dn));
        VEQ(!hd, failed(), "dnmx_create_domain fails");
        if (hd) VEQ(dnmx_sv_len(dnmx_get_domain_name(hd)), dnmx_sv_len(sv), "name of the domain");
        fault = -1;
    }
    auto& dom = *domain::from_c_handle(hd);
    mixin_info mi[N]; bytes nm[N]; bool reg[N] = {}; dnmx_mixin_allocator_handle al[N] = {};
    feature_info fi = dnmx_make_feature_info(); fi.name = dnmx_make_sv_lit("feature");
    feature_for_mixin ff[N];
    for (int i = 0; i < N; ++i) {
        c14_init_info(&mi[i], int(s.draw(7)));
        nm[i].set("m" + std::to_string(i)); mi[i].name = nm[i].sv();
        mi[i].force_external = s.chance(1, 3);
        mi[i].order_priority = int32_t(s.range(-1, 1));
        mi[i].user_data = uintptr_t(i);
        if (s.chance(1, 6)) mi[i].compare = dnmx_mixin_common_cmp_func; else if (s.flip()) mi[i].equals = dnmx_mixin_common_eq_func;
        if (s.flip()) mi[i].destroy = dnmx_mixin_common_destroy_func;
        if (s.chance(1, 3)) {
            fault = s.chance(1, 3) ? 0 : -1;
            al[i] = CALL(c14_make_allocator());
            VEQ(!al[i], failed(), "dnmx_create_mixin_allocator fails");
            fault = -1;
            mi[i].allocator = al[i];
        }
        if (s.chance(1, 3)) { ff[i] = {&fi, (void*)"p", int32_t(s.range(-2, 2)), i}; mi[i].features = &ff[i]; mi[i].num_features = 1; }
        if (s.chance(1, 8)) mi[i].init = nullptr;
        if (s.chance(1, 8)) mi[i].copy_init = nullptr;
        if (s.chance(1, 8)) mi[i].copy_asgn = nullptr;
        if (s.chance(7, 8)) {
            while (!reg[i]) {
                fault = s.chance(1, 6) ? long(s.draw(3)) : -1;
                auto r = CALL(dnmx_register_mixin(hd, &mi[i]));
                VEQ(r != 0, failed(), "dnmx_register_mixin fails");
                VEQ(mi[i].id == invalid_mixin_id, r != 0, "id of the mixin");
                VCHECK((mi[i].dom == hd) == (r == 0), "domain of the mixin");
                reg[i] = r == 0; fault = -1;
            }
            VCHECK(CALL(dnmx_register_mixin(hd, &mi[i])) != 0, "a mixin is registered twice");
        }
        VLOG("m" << i << " size " << mi[i].size << (reg[i] ? "" : " not registered") << (al[i] ? " with an allocator" : ""));
    }
    std::vector<Obj> obs;
    bytes nonm; nonm.set("m");
    auto idx_of = [&](const mixin_info* m) { return int(m - mi); };
    auto read = [&](const Obj& o, size_t k) { return std::string((const char*)dnmx_object_get_at(o.h, dnmx_mixin_index_t(k)), mi[o.mix[k].first].size); };
    auto check_obj = [&](const Obj& o, const char* when) {
        VCHECK(dnmx_object_get_domain(o.h) == hd, when << ": domain");
        VCHECK(dnmx_object_get_type(o.h) == o.t, when << ": type");
        VEQ(size_t(dnmx_object_num_mixins(o.h)), o.mix.size(), when << ": mixins");
        VEQ(dnmx_object_is_sealed(o.h), o.sealed, when << ": sealed");
        VEQ(dnmx_object_is_empty(o.h), o.mix.empty(), when << ": empty");
        for (size_t k = 0; k < o.mix.size(); ++k) {
            auto p = dnmx_object_get_at(o.h, dnmx_mixin_index_t(k));
            VCHECK(p && object_of(p) == object::from_c_handle(o.h), when << ": object of mixin " << k);
            VCHECK(!mi[o.mix[k].first].alignment || uintptr_t(p) % mi[o.mix[k].first].alignment == 0, when << ": alignment of mixin " << k);
            VCHECK(read(o, k) == o.mix[k].second, when << ": content of m" << o.mix[k].first);
        }
    };
    auto check_all = [&](const char* when) {
        std::map<const void*, size_t> num; size_t ext = 0;
        for (auto& o : obs) { check_obj(o, when); ++num[o.t]; for (auto& m : o.mix) ext += mi[m.first].allocator != nullptr; }
        for (auto& o : obs) if (!o.mix.empty()) VEQ(dnmx_type_num_objects(o.t), num[o.t], when << ": objects of the type");
        VCHECK(!c14_as.err, c14_as.err); VEQ(size_t(c14_as.n), ext, when << ": blocks of the allocators");
        VCHECK(cbs.wrong.empty(), "callback: " << cbs.wrong);
    };
    // the list a request leads to; valid: registered and no duplicates
    auto resolve = [&](std::vector<int> l, bool& ok) {
        if (set.canonicalize_types) std::sort(l.begin(), l.end(), [&](int a, int b) { return dnmx_mixin_canonical_order(&mi[a], &mi[b]); });
        for (size_t i = 0; i < l.size(); ++i) { if (!reg[l[i]]) ok = false; for (size_t j = 0; j < i; ++j) if (l[j] == l[i]) ok = false;
            for (size_t j = 0; j < i; ++j) if (mi[l[i]].num_features && mi[l[j]].num_features && ff[l[i]].bid == ff[l[j]].bid && ff[l[i]].priority == ff[l[j]].priority) ok = false; }
        return l;
    };
    auto list_of = [&](dnmx_type_handle t) { std::vector<int> l; for (auto m : T(t).mixins) l.push_back(idx_of(m)); return l; };
    auto fresh = [&](int i) { return std::string(mi[i].size, '\0'); };
    auto some_type = [&](bool& bad) -> dnmx_type_handle {
        std::vector<int> l; std::vector<const mixin_info*> q;
        for (int n = int(s.draw(N + 1)); n--; ) { int i = int(s.index(N)); if (s.chance(7, 8) && std::find(l.begin(), l.end(), i) != l.end()) continue; l.push_back(i); q.push_back(&mi[i]); }
        bool ok = true; auto r = resolve(l, ok);
        dnmx_type_handle t;
        size_t nt = dnmx_get_num_types(hd);
        if (s.flip()) { auto qd = q.empty() && s.flip() ? nullptr : q.data(); t = CALL(dnmx_get_type_from_infos(hd, qd, uint32_t(q.size()))); }
        else {
            auto hm = CALL(dnmx_create_type_mutation_empty(hd));
            if (!hm) { VCHECK(failed(), "dnmx_create_type_mutation_empty fails"); bad = true; return nullptr; }
            bool f = false;
            if (s.flip()) { for (auto m : q) if (!CALL(dnmx_type_mutation_add(hm, m))) { VCHECK(failed(), "dnmx_type_mutation_add fails"); f = true; break; } }
            else { auto qd = q.empty() && s.flip() ? nullptr : q.data(); if (!CALL(dnmx_type_mutation_set_mixins(hm, qd, uint32_t(q.size())))) { VCHECK(failed(), "dnmx_type_mutation_set_mixins fails"); f = true; } }
            if (f || s.chance(1, 10)) { CALLV(dnmx_destroy_unused_type_mutation(hm)); bad = true; return nullptr; }
            dnmx_mixin_index_t nn = 0; auto pm = dnmx_type_mutation_get_mixins(hm, &nn);
            VCHECK(std::vector<const mixin_info*>(pm, pm + nn) == q, "mixins of a mutation"); VCHECK(dnmx_type_mutation_get_domain(hm) == hd, "domain of a mutation");
            t = CALL(dnmx_get_type(hd, &hm));
            VCHECK(!hm, "the mutation is consumed");
        }
        if (!t && failed()) { bad = true; return nullptr; }
        VEQ(!t, !ok, "a type is refused");
        if (!ok) { VEQ(dnmx_get_num_types(hd), nt, "types after a refused request"); bad = true; return nullptr; }
        VCHECK(list_of(t) == r, "mixins of a type");
        if (q.empty()) VCHECK(t == dnmx_get_empty_type(hd), "the empty type");
        return t;
    };
    auto cb_data = [&](int& kind, char& v) { kind = s.chance(1, 5) ? int(1 + s.draw(3)) : cb_ok; v = char(1 + s.draw(100)); return uintptr_t(kind) | uintptr_t((unsigned char)v) << 8; };
    while (s.more(14)) {
        vp::Src::Op op(s);
        fault = s.chance(1, 5) ? long(s.draw(8)) : -1;
        c14_as.fail_in = s.chance(1, 8) ? int(s.draw(3)) : -1;
        int what = int(s.weighted({4, 3, 2, 2, 8, 8, 3, 3, 2, 3, 3, 4, 3}));
        Obj* o = obs.empty() ? nullptr : &obs[s.index(obs.size())];
        if (what >= 2 && !o) what = 0;
        auto before = o ? *o : Obj();
        switch (what) {
        case 0: { // create
            if (obs.size() > 5) break;
            if (s.chance(1, 4)) {
                auto h = CALL(dnmx_create_object_empty(hd));
                VLOG("empty object" << (h ? "" : " fails"));
                VEQ(!h, failed(), "dnmx_create_object_empty fails");
                if (h) obs.push_back({h, dnmx_get_empty_type(hd), {}, false});
                break;
            }
            bool bad = false; auto t = some_type(bad); if (bad) break;
            VEQ(dnmx_type_is_default_constructible(t), std::all_of(T(t).mixins.begin(), T(t).mixins.end(), [](auto m) { return m->init; }), "default constructible");
            auto h = CALL(dnmx_create_object_default(t));
            VLOG("object of " << T(t).num_mixins() << " mixins" << (h ? "" : " fails"));
            if (!h && failed()) { s.interesting(); break; }
            VEQ(bool(h), dnmx_type_is_default_constructible(t), "dnmx_create_object_default");
            if (h) { obs.push_back({h, t, {}, false}); for (int i : list_of(t)) obs.back().mix.push_back({i, fresh(i)}); }
            break;
        }
        case 1: case 2: { // copy, usurp
            if (!o || obs.size() > 5) break;
            bool usurp = what == 2;
            auto h = usurp ? CALL(dnmx_create_object_usurp(o->h)) : CALL(dnmx_create_object_copy(o->h));
            VLOG((usurp ? "usurp" : "copy") << (h ? "" : " fails"));
            if (!h && failed()) { s.interesting(); break; }
            bool can = usurp || o->mix.empty() || dnmx_type_is_copy_constructible(o->t);
            VEQ(bool(h), can, "a copy or move is made");
            if (!h) break;
            Obj c = *o; c.h = h; if (!usurp) c.sealed = false;
            if (usurp) { o->mix.clear(); o->t = dnmx_get_empty_type(hd); o->sealed = false; }
            obs.push_back(c);
            break;
        }
        case 3: { VLOG("destroy"); CALLV(dnmx_destroy_object(o->h)); obs.erase(obs.begin() + (o - obs.data())); break; }
        case 4: { // mutate
            std::vector<dnmx_mutate_op> ops; std::vector<int> l; for (auto& m : o->mix) l.push_back(m.first);
            struct Ov { int i; int kind; char v; }; std::vector<Ov> ovs; bool ok = true;
            for (int n = int(s.draw(5)); n--; ) {
                int i = int(s.index(N)), k = int(s.weighted({5, 3, 2})); bool by_name = s.flip(), unknown = by_name && s.chance(1, 10);
                if (k == 0 && std::find(l.begin(), l.end(), i) != l.end() && !s.chance(1, 10)) continue;
                if (k == 2 && std::find(l.begin(), l.end(), i) == l.end() && !s.chance(1, 10)) continue;
                dnmx_mutate_op x = {}; x.op_type = k; if (s.chance(1, 40)) x.op_type = s.flip() ? 3 : -1;
                if (by_name) x.mixin_name = unknown ? (s.flip() ? nonm.sv() : dnmx_make_sv_str(nullptr)) : nm[i].sv(); else { x.mixin = &mi[i]; if (s.flip()) x.mixin_name = nm[s.index(N)].sv(); }
                int kind = cb_ok; char v = 0;
                if (s.flip()) { x.user_data = cb_data(kind, v); x.init_override = cb_init; }
                ops.push_back(x);
                VLOG("  op " << x.op_type << (x.mixin ? " m" : unknown ? " unknown m" : " name m") << i << (x.init_override ? " with an override" : ""));
                if (!ok) continue;
                if (x.op_type != k) { ok = false; continue; }
                bool there = !unknown && (k != 0 || !by_name || reg[i]);
                if (k == 0) { if (!there) ok = false; else { l.push_back(i); } if (x.init_override && ok) ovs.push_back({i, kind, v}); }
                else if (k == 1) { if (there) { auto f = std::find(l.begin(), l.end(), i); if (f != l.end()) l.erase(f); } }
                else { auto f = there ? std::find(l.begin(), l.end(), i) : l.end(); if (f == l.end()) ok = false; else { l.erase(f); l.push_back(i); } }
            }
            if (o->sealed) { /* refused below, unless the type stays */ }
            bool tok = ok; auto r = resolve(l, tok); ok = tok;
            std::vector<int> cur; for (auto& m : o->mix) cur.push_back(m.first);
            bool same = ok && r == cur;
            // the new content
            std::vector<std::pair<int, std::string>> nw; int want_runs = 0; bool aborted = false;
            if (ok && !same) for (int i : r) {
                auto c = std::find_if(o->mix.begin(), o->mix.end(), [&](auto& m) { return m.first == i; });
                if (c != o->mix.end()) { nw.push_back(*c); continue; }
                auto ov = std::find_if(ovs.begin(), ovs.end(), [&](auto& x) { return x.i == i; });
                if (ov != ovs.end()) { if (!aborted) ++want_runs; if (ov->kind >= cb_err && ov->kind <= cb_odd) aborted = true; nw.push_back({i, std::string(mi[i].size, ov->v)}); }
                else { if (!mi[i].init) aborted = true; nw.push_back({i, fresh(i)}); }
            }
            if (aborted) ok = false;
            if (o->sealed && !same) ok = false;
            cbs.runs = 0;
            auto pd = ops.empty() && s.flip() ? nullptr : ops.data();
            auto res = CALL(dnmx_mutate(o->h, pd, uint32_t(ops.size())));
            VLOG("mutate by " << ops.size() << " operations: " << (res ? "fails" : "done"));
            if (res && failed()) { s.interesting(); break; }
            if (o->sealed && same) ok = res == 0; // either
            VEQ(res == 0, ok, "dnmx_mutate");
            if (ok && !same) { VEQ(cbs.runs, want_runs, "overrides run"); o->mix = nw; o->t = dnmx_object_get_type(o->h); VCHECK(list_of(o->t) == r, "type after dnmx_mutate"); s.interesting(); }
            if (!ok) s.interesting();
            break;
        }
        case 5: { // mutate_to
            bool bad = false; auto t = s.chance(1, 5) ? obs[s.index(obs.size())].t : some_type(bad); if (bad) break;
            auto r = list_of(t);
            struct Ov { int i, ik, uk; char iv, uv; bool init, upd; };
            std::vector<dnmx_mutate_to_override> v; std::vector<Ov> ovs;
            for (int n = int(s.draw(4)); n--; ) {
                dnmx_mutate_to_override x = {}; Ov y = {}; y.i = !r.empty() && s.chance(3, 4) ? r[s.index(r.size())] : int(s.index(N));
                if (s.flip()) { x.mixin = &mi[y.i]; if (s.flip()) x.mixin_name = nm[s.index(N)].sv(); }
                else if (s.chance(1, 8)) { x.mixin_name = s.flip() ? nonm.sv() : dnmx_make_sv_str(nullptr); y.i = -1; }
                else x.mixin_name = nm[y.i].sv();
                y.init = s.chance(2, 3); y.upd = s.flip();
                if (y.init && y.upd) { int k; char c; x.user_data = cb_data(k, c); y.ik = y.uk = k; y.iv = y.uv = c; x.init_new = cb_init; x.update_common = cb_update; }
                else if (y.init) { x.user_data = cb_data(y.ik, y.iv); x.init_new = cb_init; }
                else if (y.upd) { x.user_data = cb_data(y.uk, y.uv); x.update_common = cb_update; }
                v.push_back(x); ovs.push_back(y);
            }
            bool ok = !o->sealed; int want_runs = 0;
            auto nw = o->mix; nw.clear(); auto half = o->mix; // half: common mixins updated before a failure
            auto fails = [](int k) { return k >= cb_err && k <= cb_odd; };
            for (int i : r) {
                auto c = std::find_if(half.begin(), half.end(), [&](auto& m) { return m.first == i; });
                auto ov = std::find_if(ovs.begin(), ovs.end(), [&](auto& x) { return x.i == i; });
                bool has = ov != ovs.end();
                if (c == half.end()) {
                    std::string val = fresh(i);
                    if (has && ov->init) { if (ok) ++want_runs; if (fails(ov->ik)) ok = false; val.assign(val.size(), ov->iv); }
                    else if (!mi[i].init) ok = false;
                    nw.push_back({i, val});
                }
                else {
                    if (has && ov->upd) { if (ok) ++want_runs; if (fails(ov->uk)) ok = false; if (ok) c->second.assign(c->second.size(), ov->uv); }
                    nw.push_back(*c);
                }
            }
            cbs.runs = 0;
            auto pd = v.empty() && s.flip() ? nullptr : v.data();
            auto res = CALL(dnmx_mutate_to(o->h, t, pd, uint32_t(v.size())));
            VLOG("mutate to " << r.size() << " mixins with " << v.size() << " overrides: " << (res ? "fails" : "done"));
            if (res && failed()) { // updates may have been done
                for (size_t k = 0; k < o->mix.size(); ++k) { auto now = read(*o, k); bool okc = now == o->mix[k].second; for (auto& y : ovs) if (y.i == o->mix[k].first && y.upd && now == std::string(now.size(), y.uv)) okc = true; VCHECK(okc, "content of m" << o->mix[k].first << " after a failed mutation"); o->mix[k].second = now; }
                s.interesting(); break;
            }
            VEQ(res == 0, ok, "dnmx_mutate_to");
            if (ok) { VEQ(cbs.runs, want_runs, "overrides run"); o->mix = nw; o->t = t; }
            else { for (size_t k = 0; k < o->mix.size(); ++k) { auto now = read(*o, k); VCHECK(now == o->mix[k].second || now == half[k].second, "content of m" << o->mix[k].first << " after a failed mutation"); o->mix[k].second = now; } }
            s.interesting();
            break;
        }
        case 6: { // reset_type
            bool bad = false; dnmx_type_handle t = s.chance(1, 3) ? nullptr : some_type(bad); if (bad) break;
            auto res = CALL(dnmx_object_reset_type(o->h, t));
            VLOG("reset_type " << (t ? "" : "null") << (res ? " fails" : ""));
            if (res && failed()) { s.interesting(); break; }
            auto r = t ? list_of(t) : std::vector<int>();
            bool ok = !o->sealed;
            if (!t && o->mix.empty()) ok = res == 0; // clearing nothing of a sealed object: either
            std::vector<std::pair<int, std::string>> nw;
            for (int i : r) { auto c = std::find_if(o->mix.begin(), o->mix.end(), [&](auto& m) { return m.first == i; }); if (c != o->mix.end()) nw.push_back(*c); else { nw.push_back({i, fresh(i)}); if (!mi[i].init) ok = false; } }
            if (t && t == o->t && o->sealed) ok = res == 0;
            VEQ(res == 0, ok, "dnmx_object_reset_type");
            if (ok) { o->mix = nw; o->t = t ? t : dnmx_get_empty_type(hd); }
            break;
        }
        case 7: { // copy_from
            auto& src = obs[s.index(obs.size())];
            auto res = CALL(dnmx_object_copy_from(o->h, src.h));
            VLOG("copy_from " << (res ? "fails" : "done"));
            if (&src == o) { if (res == 0) break; }
            if (res && failed()) {
                for (size_t k = 0; k < o->mix.size(); ++k) { auto now = read(*o, k); bool okc = now == o->mix[k].second; for (auto& y : src.mix) if (y.first == o->mix[k].first && now == y.second) okc = true; VCHECK(okc, "content after a failed copy"); o->mix[k].second = now; }
                s.interesting(); break;
            }
            bool ok = !o->sealed;
            for (auto& m : src.mix) { bool common = std::any_of(o->mix.begin(), o->mix.end(), [&](auto& y) { return y.first == m.first; }); if (common ? !mi[m.first].copy_asgn : !mi[m.first].copy_init) ok = false; }
            if (o->sealed && o->t == src.t) ok = res == 0; // not judged here (C09)
            if (res == 0 && !ok) VFAIL("dnmx_object_copy_from works");
            if (res && ok) VFAIL("dnmx_object_copy_from fails");
            if (ok) { o->mix = src.mix; o->t = src.t; s.interesting(); }
            break;
        }
        case 8: { bool r = CALL(dnmx_object_clear(o->h)); VLOG("clear"); VEQ(r, !o->sealed, "dnmx_object_clear"); if (r) { o->mix.clear(); o->t = dnmx_get_empty_type(hd); } break; }
        case 9: { // seal, write
            if (s.chance(1, 4)) { VLOG("seal"); CALLV(dnmx_object_seal(o->h)); o->sealed = true; }
            else if (!o->mix.empty()) { size_t k = s.index(o->mix.size()); char v = char(s.draw(100)); auto& m = mi[o->mix[k].first];
                void* p = s.flip() ? dnmx_object_get_mut(o->h, &m) : s.flip() ? dnmx_object_get_mut_by_name(o->h, m.name) : dnmx_object_get_mut_at(o->h, dnmx_mixin_index_t(k));
                VCHECK(p, "a mixin is found"); VLOG("write m" << o->mix[k].first); memset(p, v, m.size); o->mix[k].second.assign(m.size, v); }
            break;
        }
        case 10: { // compare
            fault = -1;
            auto& b = obs[s.index(obs.size())];
            bool eq = CALL(dnmx_object_equals(o->h, b.h)), ceq = object::from_c_handle(o->h)->equals(*object::from_c_handle(b.h));
            VEQ(eq, ceq, "dnmx_object_equals");
            bool want = o->t == b.t; for (size_t k = 0; want && k < o->mix.size() && o != &b; ++k) { auto& m = mi[o->mix[k].first]; if (!m.equals && !m.compare) want = false; else if (!(m.compare == dnmx_mixin_noop_cmp_func && !m.equals) && o->mix[k].second != b.mix[k].second) want = false; }
            VEQ(eq, want, "dnmx_object_equals");
            auto c = CALL(dnmx_object_compare(o->h, b.h)); int cc = 0; bool threw = false;
            try { cc = object::from_c_handle(o->h)->compare(*object::from_c_handle(b.h)); } catch (object_error&) { threw = true; }
            VEQ(c.error != 0, threw, "dnmx_object_compare fails"); if (!threw) VCHECK((c.result < 0) == (cc < 0) && (c.result > 0) == (cc > 0), "dnmx_object_compare"); if (threw) VEQ(c.result, 0, "result of a failed comparison");
            VLOG("compare");
            break;
        }
        case 12: { // edits of a type mutation, some of which fail for lack of memory
            long every = fault;
            std::vector<const mixin_info*> l;
            for (auto& x : o->mix) l.push_back(&mi[x.first]);
            auto hm = CALL(dnmx_create_type_mutation_from_type(o->t));
            if (!hm) { VCHECK(failed(), "dnmx_create_type_mutation_from_type fails"); s.interesting(); VLOG("a mutation of a type fails"); break; }
            auto same = [&](const char* after) { dnmx_mixin_index_t n = 0; auto p = dnmx_type_mutation_get_mixins(hm, &n); VCHECK(std::vector<const mixin_info*>(p, p + n) == l, "mixins of a mutation after " << after); };
            same("its creation from a type");
            VCHECK(dnmx_type_mutation_get_domain(hm) == hd, "domain of a mutation");
            while (s.more(3)) {
                fault = every >= 0 && s.flip() ? long(s.draw(2)) : -1;
                int i = int(s.index(N)); auto in = std::find(l.begin(), l.end(), &mi[i]); bool has = in != l.end();
                VEQ(dnmx_type_mutation_has(hm, &mi[i]), has, "dnmx_type_mutation_has");
                switch (s.index(6)) {
                case 0: { bool r = CALL(dnmx_type_mutation_add(hm, &mi[i])); VEQ(!r, failed(), "dnmx_type_mutation_add fails"); if (r) l.push_back(&mi[i]); same("add"); break; }
                case 1: { bool r = CALL(dnmx_type_mutation_add_if_lacking(hm, &mi[i])); if (has) VCHECK(!r, "dnmx_type_mutation_add_if_lacking of a mixin which is there"); else { VEQ(!r, failed(), "dnmx_type_mutation_add_if_lacking fails"); if (r) l.push_back(&mi[i]); } same("add_if_lacking"); break; }
                case 2: { bool r = CALL(dnmx_type_mutation_remove(hm, &mi[i])); VEQ(r, has, "dnmx_type_mutation_remove"); if (has) l.erase(in); same("remove"); break; }
                case 3: { fault = -1; bool r = CALL(dnmx_type_mutation_to_back(hm, &mi[i])); VEQ(r, has, "dnmx_type_mutation_to_back"); if (has) { l.erase(in); l.push_back(&mi[i]); } same("to_back"); break; }
                case 4: { std::vector<const mixin_info*> q; for (int n = int(s.draw(2 * N)); n--; ) q.push_back(&mi[s.index(N)]);
                    bool r = CALL(dnmx_type_mutation_set_mixins(hm, q.data(), uint32_t(q.size()))); VEQ(!r, failed(), "dnmx_type_mutation_set_mixins fails"); if (r) l = q; same("set_mixins"); break; }
                default: { CALLV(dnmx_type_mutation_dedup(hm)); std::vector<const mixin_info*> q; for (size_t k = 0; k < l.size(); ++k) if (std::find(l.begin() + long(k) + 1, l.end(), l[k]) == l.end()) q.push_back(l[k]); l = q; same("dedup"); }
                }
                if (failed()) s.interesting();
            }
            VLOG("edits of a mutation");
            fault = every;
            if (s.chance(1, 4)) { CALLV(dnmx_destroy_unused_type_mutation(hm)); break; }
            bool ok = true; std::vector<int> li; for (auto m : l) li.push_back(idx_of(m));
            auto r = resolve(li, ok); size_t nt = dnmx_get_num_types(hd);
            auto t = CALL(dnmx_get_type(hd, &hm));
            VCHECK(!hm, "the mutation is consumed");
            if (!t && failed()) break;
            VEQ(!t, !ok, "a type of an edited mutation is refused");
            if (!t) VEQ(dnmx_get_num_types(hd), nt, "types after a refused request"); else VCHECK(list_of(t) == r, "mixins of a type of an edited mutation");
            break;
        }
        default: { // lookups
            fault = -1;
            VEQ(size_t(dnmx_type_num_mixins(o->t)), o->mix.size(), "dnmx_type_num_mixins");
            { auto all = [&](auto f) { return std::all_of(T(o->t).mixins.begin(), T(o->t).mixins.end(), f); };
              VEQ(dnmx_type_is_copy_constructible(o->t), all([](auto m) { return m->copy_init; }), "dnmx_type_is_copy_constructible");
              VEQ(dnmx_type_is_copy_assignable(o->t), all([](auto m) { return m->copy_asgn; }), "dnmx_type_is_copy_assignable");
              VEQ(dnmx_type_is_equality_comparable(o->t), all([](auto m) { return m->equals || m->compare; }), "dnmx_type_is_equality_comparable");
              VEQ(dnmx_type_is_comparable(o->t), all([](auto m) { return m->compare; }), "dnmx_type_is_comparable"); }
            int i = int(s.index(N)); auto& m = mi[i]; bytes q; q.set(s.flip() ? "m" + std::to_string(s.draw(N + 1)) : gen_name(s));
            auto sv = s.chance(1, 6) ? dnmx_make_sv_str(nullptr) : q.sv();
            int ni = -1; for (int k = 0; k < N; ++k) if (nm[k].view() == sv.to_std()) ni = k;
            bool in = std::any_of(o->mix.begin(), o->mix.end(), [&](auto& x) { return x.first == i; }), nin = std::any_of(o->mix.begin(), o->mix.end(), [&](auto& x) { return x.first == ni; });
            VCHECK(dnmx_get_mixin_info_by_name(hd, sv) == (ni >= 0 && reg[ni] ? &mi[ni] : nullptr), "mixin by name");
            VCHECK(dnmx_get_mixin_info_by_id(hd, m.id) == (reg[i] ? &m : nullptr), "mixin by id");
            VEQ(dnmx_object_has(o->h, &m), in, "dnmx_object_has"); VEQ(dnmx_type_has(o->t, &m), in, "dnmx_type_has"); VEQ(dnmx_object_has_by_name(o->h, sv), nin, "dnmx_object_has_by_name"); VEQ(dnmx_type_has_by_name(o->t, sv), nin, "dnmx_type_has_by_name");
            VEQ(dnmx_object_get(o->h, &m) != nullptr, in, "dnmx_object_get"); VEQ(dnmx_object_get_by_name(o->h, sv) != nullptr, nin, "dnmx_object_get_by_name"); VEQ(dnmx_object_get_mut_by_name(o->h, sv) != nullptr, nin, "dnmx_object_get_mut_by_name");
            VEQ(dnmx_type_index_of(o->t, &m) != invalid_mixin_index, in, "dnmx_type_index_of"); VEQ(dnmx_type_index_of_name(o->t, sv) != invalid_mixin_index, nin, "dnmx_type_index_of_name");
            auto far = dnmx_mixin_index_t(s.chance(1, 2) ? o->mix.size() : s.raw() | 0x80000000u);
            VCHECK(!dnmx_object_get_at(o->h, far) && !dnmx_object_get_mut_at(o->h, far), "a mixin beyond the last");
            bool impl = false; for (auto& x : o->mix) impl |= mi[x.first].num_features > 0;
            bool fr = fi.id != invalid_feature_id;
            if (fr) { VEQ(dnmx_object_implements_strong(o->h, &fi), impl, "dnmx_object_implements_strong"); VEQ(dnmx_type_implements(o->t, &fi), impl, "dnmx_type_implements"); VEQ(dnmx_type_implements_strong(o->t, &fi), impl, "dnmx_type_implements_strong"); }
            VEQ(dnmx_object_implements_strong_by_name(o->h, dnmx_make_sv_lit("feature")), impl, "dnmx_object_implements_strong_by_name"); VEQ(dnmx_object_implements_strong_by_name(o->h, sv), false, "dnmx_object_implements_strong_by_name");
            VEQ(dnmx_type_implements_strong_by_name(o->t, dnmx_make_sv_lit("feature")), impl, "dnmx_type_implements_strong_by_name"); VEQ(dnmx_type_implements_strong_by_name(o->t, sv), false, "dnmx_type_implements_strong_by_name");
            for (uint32_t id : {0u, 1u, uint32_t(s.draw(5)), uint32_t(dnmx_invalid_id), 0x80000000u}) VCHECK(dnmx_get_feature_info_by_id(hd, feature_id{id}) == (fr && fi.id.i == id ? &fi : nullptr), "feature by id " << id);
            VCHECK(dnmx_get_feature_info_by_name(hd, dnmx_make_sv_lit("feature")) == (fr ? &fi : nullptr), "feature by name"); VCHECK(!dnmx_get_type_class_by_name(hd, sv), "type class by name");
            VEQ(CALL(dnmx_type_is_of_name(o->t, sv)), false, "a type is of an unknown class");
            // foreign and unregistered things are not unregistered
            mixin_info x = dnmx_make_mixin_info(); feature_info y = dnmx_make_feature_info(); CALLV(dnmx_unregister_mixin(hd, &x)); CALLV(dnmx_unregister_feature(hd, &y));
            if (reg[i]) { x = m; CALLV(dnmx_unregister_mixin(hd, &x)); VCHECK(dnmx_get_mixin_info_by_id(hd, m.id) == &m, "a mixin after a foreign one is unregistered"); }
            VLOG("lookups");
            break;
        }
        }
        fault = -1; c14_as.fail_in = -1;
        check_all("after the operation");
        (void)before;
    }
    for (auto& o : obs) CALLV(dnmx_destroy_object(o.h));
    obs.clear();
    check_all("at the end");
    CALLV(dnmx_garbage_collect_types(hd));
    VEQ(dnmx_get_num_types(hd), size_t(0), "types left");
    for (int i = 0; i < N; ++i) if (reg[i]) CALLV(dnmx_unregister_mixin(hd, &mi[i]));
    (void)dom;
    CALLV(dnmx_destroy_domain(hd));
    for (auto a : al) if (a) CALLV(dnmx_destroy_mixin_allocator(a));
    VEQ(c14n::live, 0L, "blocks allocated by C functions and left");
}
vp::Reg r1("C14", vp::Part{"C translation unit", "structures, inline functions and info macros compiled as C are compared with C++ on random infos, domains, types, feature ids and objects; non-trivial: a type of two or more mixins", inlines, 60000, 3000000});
vp::Reg r2("C14", vp::Part{"C programs", "random programs through the C interface only, with mixins and allocators made in C, null and unknown arguments, failing and throwing callbacks and failing global allocation: results, objects, contents, blocks and exceptions compared with a model; non-trivial: a mutation or copy happens or a call fails", programs, 100000, 5000000});
}
