// C16: string views against the bytes they denote, in C and C++.
#include "common.hpp"
#include "c16_c.h"
#include <algorithm>
#include <memory>

namespace c16 {
using namespace pt;
using B = std::vector<unsigned char>;

int ref_cmp(const B& a, const B& b) { // byte by byte
    for (size_t i = 0; ; ++i) {
        if (i == a.size() || i == b.size()) return int(b.size() == i) - int(a.size() == i);
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    }
}
int sgn(int v) { return (v > 0) - (v < 0); }
struct View {
    dnmx_sv sv; B bytes; int kind;
    std::unique_ptr<char[]> own; // of exactly the size, so that a byte more is found out
};
B gen_bytes(vp::Src& s, size_t max) {
    static const unsigned char al[] = {'a', 'b', 0, 0xff, 0x80, 0x7f, 'A', 1};
    B r(size_t(s.draw(max)));
    size_t n = s.chance(1, 3) ? 8 : 2;
    for (auto& c : r) c = s.chance(1, 12) ? (unsigned char)s.draw(255) : al[s.index(n)];
    return r;
}
View own_of(B b) {
    View v; v.kind = 1; v.bytes = b;
    v.own.reset(new char[b.size() ? b.size() : 1]);
    std::copy(b.begin(), b.end(), v.own.get());
    v.sv.begin = v.own.get(); v.sv.end = v.own.get() + b.size();
    return v;
}
std::string str(const View& v) {
    static const char* k[] = {"null", "own", "window"};
    std::string r = std::string(k[v.kind]) + '"'; char t[8];
    for (auto c : v.bytes) if (c > 32 && c < 127) r += char(c); else { snprintf(t, sizeof t, "\\x%02x", c); r += t; }
    return r + '"';
}
bool same(dnmx_sv a, dnmx_sv b) { return a.begin == b.begin && a.end == b.end; }

void views(vp::Src& s) {
    const size_t max = s.chance(1, 8) ? 300 : 6;
    B common = gen_bytes(s, max);
    auto buf = own_of(common);
    std::vector<View> v(size_t(s.range(2, 4)));
    for (size_t i = 0; i < v.size(); ++i) {
        vp::Src::Op span(s);
        switch (s.weighted({4, 4, 1, 2, 2})) {
        case 0: v[i] = own_of(gen_bytes(s, max)); break;
        case 1: { // a window of the one buffer
            size_t b = s.index(common.size() + 1), n = s.index(common.size() - b + 1);
            if (s.flip()) { n = std::min(common.size(), n + b); b = 0; }
            v[i].kind = 2; v[i].bytes.assign(common.begin() + long(b), common.begin() + long(b + n));
            v[i].sv.begin = buf.sv.begin + b; v[i].sv.end = v[i].sv.begin + n; break;
        }
        case 2: v[i].kind = 0; v[i].sv = {}; break;
        case 3: if (i) { auto b = v[s.index(i)].bytes; v[i] = own_of(b); break; } v[i] = own_of({}); break; // equal to another
        case 4: { // differs from another in one place, or is a bit longer or shorter
            B b = i ? v[s.index(i)].bytes : common;
            if (b.size() && s.flip()) b[s.index(b.size())] = (unsigned char)s.draw(255);
            else if (b.size() && s.flip()) b.pop_back();
            else b.push_back((unsigned char)s.draw(255));
            v[i] = own_of(b); break;
        }
        }
        VLOG("view " << i << ": " << str(v[i]));
    }
    for (auto& a : v) {
        auto& x = a.sv; const size_t n = a.bytes.size();
        VEQ(dnmx_sv_len(x), n, "length"); VEQ(c16_len(x), n, "length in C");
        VEQ(dnmx_sv_is_empty(x), !n, "empty"); VEQ(c16_is_empty(x) != 0, !n, "empty in C"); VEQ(x.empty(), !n, "empty");
        VEQ(dnmx_sv_is_null(x), a.kind == 0, "null"); VEQ(c16_is_null(x) != 0, a.kind == 0, "null in C");
        auto std_sv = x.to_std();
        VCHECK(std_sv.data() == x.begin && std_sv.size() == n, "conversion to std");
        VCHECK(same(dnmx_sv::from_std(std_sv), x), "conversion from std");
        VCHECK(same(dnmx_make_sv_be(x.begin, x.end), x) && same(c16_make_be(x.begin, x.end), x), "made of begin and end");
        VCHECK(same(dnmx_make_sv_len(x.begin, n), x) && same(c16_make_len(x.begin, n), x), "made of begin and length");
        // of a terminated string
        std::string z(a.bytes.begin(), a.bytes.end());
        dnmx_sv zs = dnmx_make_sv_str(z.c_str()), zc = c16_make_str(z.c_str());
        VCHECK(zs.begin == z.c_str() && dnmx_sv_len(zs) == strlen(z.c_str()) && same(zs, zc), "made of a string");
        // characters
        for (int k = 0; k < 3; ++k) {
            char q = k == 0 || a.bytes.empty() ? char(s.draw(255)) : char(a.bytes[s.index(n)]);
            const char *f = nullptr, *l = nullptr;
            for (size_t i = 0; i < n; ++i) if (char(a.bytes[i]) == q) { if (!f) f = x.begin + i; l = x.begin + i; }
            VCHECK(dnmx_sv_find_first(x, q) == f && c16_find_first(x, q) == f, "first " << int(q) << " of " << str(a));
            VCHECK(dnmx_sv_find_last(x, q) == l && c16_find_last(x, q) == l, "last " << int(q) << " of " << str(a));
            if (f && f != l) s.label("a character found twice");
        }
        // prefixes
        std::string p = s.flip() ? z.substr(0, s.index(n + 1)) : s.pick(v).bytes.size() ? std::string(a.bytes.begin(), a.bytes.end()) : std::string("a");
        if (s.chance(1, 4)) p += char(s.draw(255));
        if (p.size() && s.chance(1, 4)) p[s.index(p.size())] = char(s.draw(255));
        std::unique_ptr<char[]> pc(new char[strlen(p.c_str()) + 1]);
        strcpy(pc.get(), p.c_str());
        bool pre = strlen(pc.get()) <= n;
        for (size_t i = 0; pre && pc[i]; ++i) if (char(a.bytes[i]) != pc[i]) pre = false;
        VEQ(dnmx_sv_starts_with(x, pc.get()), pre, str(a) << " starts with \"" << pc.get() << '"');
        VEQ(c16_starts_with(x, pc.get()) != 0, pre, str(a) << " starts with in C");
        for (auto& b : v) {
            auto& y = b.sv;
            const int want = ref_cmp(a.bytes, b.bytes);
            const bool eq = want == 0;
            auto what = [&] { return str(a) + " and " + str(b); };
            VEQ(sgn(dnmx_sv_cmp(x, y)), want, "order of " << what());
            VEQ(sgn(c16_cmp(x, y)), want, "order in C of " << what());
            VEQ(dnmx_sv_eq(x, y), eq, "equality of " << what()); VEQ(c16_eq(x, y) != 0, eq, "equality in C of " << what());
            VEQ(x == y, eq, "== of " << what()); VEQ(x != y, !eq, "!= of " << what());
            VEQ(x < y, want < 0, "< of " << what());
            VEQ(x == y.to_std(), eq, "== with std of " << what()); VEQ(x.to_std() == y, eq, "std == of " << what());
            VEQ(x != y.to_std(), !eq, "!= with std of " << what()); VEQ(x.to_std() != y, !eq, "std != of " << what());
            if (&a != &b) {
                size_t c = 0; while (c < a.bytes.size() && c < b.bytes.size() && a.bytes[c] == b.bytes[c]) ++c;
                if (c && (c == a.bytes.size() || c == b.bytes.size())) { s.interesting(); s.label(eq ? "equal texts" : "a text and its prefix"); }
                if (a.kind == 2 && b.kind == 2 && !eq) s.label("windows of one buffer");
            }
        }
    }
    // the null string, and the literals
    VCHECK(dnmx_sv_is_null(dnmx_make_sv_str(nullptr)) && dnmx_sv_is_empty(c16_make_str(nullptr)), "made of a null string");
    static const std::string_view lits[] = {std::string_view(""), std::string_view("a"), std::string_view("a\0b", 3), std::string_view("\0", 1), std::string_view("\xff\x80z", 3)};
    int li = int(s.index(5));
    VCHECK(c16_lit(li) == lits[li], "literal " << li << " in C");
    dnmx_sv cpp_lit = li == 2 ? dnmx_sv(dnmx_make_sv_lit("a\0b")) : dnmx_sv(dnmx_make_sv_lit(""));
    VCHECK(cpp_lit == (li == 2 ? lits[2] : lits[0]), "literal in C++");
    // sorted by C and by C++
    std::vector<dnmx_sv> so, sc; std::vector<B> sr;
    for (auto& a : v) { so.push_back(a.sv); sr.push_back(a.bytes); }
    sc = so;
    c16_sort(sc.data(), sc.size());
    std::sort(so.begin(), so.end());
    std::sort(sr.begin(), sr.end(), [](const B& a, const B& b) { return ref_cmp(a, b) < 0; });
    for (size_t i = 0; i < sr.size(); ++i) {
        std::string_view t(reinterpret_cast<const char*>(sr[i].data()), sr[i].size());
        VCHECK(so[i] == t && sc[i] == t, "place " << i << " of the sorted views");
    }
}

// names of elements, in the order the domain gives them: by exactly those bytes
void names(vp::Src& s) {
    const bool canon = s.flip();
    domain d("c16", canon ? domain_settings_builder().canonicalize_types() : domain_settings_builder());
    B common = gen_bytes(s, 10);
    while (common.size() < 3) common.push_back('a');
    auto buf = own_of(common);
    struct El { View v; mixin_info m; feature_info f; type_class tc; mutation_rule_info r; int at; };
    std::vector<std::unique_ptr<El>> els;
    std::vector<B> used;
    static std::vector<int>* applied;
    std::vector<int> log; applied = &log;
    for (int n = int(s.range(2, 5)), k = 0; k < n; ++k) {
        vp::Src::Op span(s);
        auto e = std::make_unique<El>();
        if (s.flip()) e->v = own_of(gen_bytes(s, 5));
        else {
            size_t b = s.flip() ? 0 : s.index(common.size()), l = 1 + s.index(common.size() - b);
            e->v.kind = 2; e->v.bytes.assign(common.begin() + long(b), common.begin() + long(b + l));
            e->v.sv.begin = buf.sv.begin + b; e->v.sv.end = e->v.sv.begin + l;
        }
        const bool bad = e->v.bytes.empty() || std::find(used.begin(), used.end(), e->v.bytes) != used.end();
        VLOG("name " << str(e->v));
        e->m = dnmx_make_mixin_info(); e->m.name = e->v.sv;
        e->f = dnmx_make_feature_info(); e->f.name = e->v.sv;
        e->tc.name = e->v.sv; e->tc.matches = [](dnmx_type_handle) noexcept { return true; };
        bool th[3] = {};
        try { d.register_mixin(e->m); } catch (domain_error&) { th[0] = true; }
        try { d.register_feature(e->f); } catch (domain_error&) { th[1] = true; }
        try { d.register_type_class(e->tc); } catch (domain_error&) { th[2] = true; }
        for (int i = 0; i < 3; ++i) VEQ(th[i], bad, "element kind " << i << " of the name " << str(e->v) << " is refused");
        if (bad) { s.label("a name refused"); continue; }
        used.push_back(e->v.bytes);
        e->at = int(els.size());
        e->r = {}; e->r.name = e->v.sv; e->r.user_data = uintptr_t(e->at);
        e->r.apply = [](dnmx_type_mutation_handle, uintptr_t u) -> error_return_t { applied->push_back(int(u)); return result_success; };
        els.push_back(std::move(e));
    }
    // found by equal bytes elsewhere, and by no others
    std::vector<const mixin_info*> all;
    std::vector<int> order;
    for (auto& e : els) {
        B b = e->v.bytes;
        auto look = own_of(b);
        auto sv = look.sv.to_std();
        VEQ(d.get_mixin_info(sv), (const mixin_info*)&e->m, "mixin by " << str(e->v)); VEQ(d.get_feature_info(sv), (const feature_info*)&e->f, "feature by " << str(e->v));
        VEQ(d.get_type_class(sv), (const type_class*)&e->tc, "type class by " << str(e->v));
        if (s.flip() && !b.empty()) b.pop_back(); else b.push_back((unsigned char)s.draw(255));
        look = own_of(b);
        const bool there = std::find(used.begin(), used.end(), b) != used.end();
        VEQ(d.get_mixin_info(look.sv.to_std()) != nullptr, there, "mixin by " << str(look)); VEQ(d.get_feature_info(look.sv.to_std()) != nullptr, there, "feature by " << str(look));
        VEQ(d.get_type_class(look.sv.to_std()) != nullptr, there, "type class by " << str(look));
        d.add_mutation_rule(e->r);
        all.push_back(&e->m); order.push_back(e->at);
    }
    if (els.size() > 2) s.interesting();
    auto less = [&](int a, int b) { return ref_cmp(els[size_t(a)]->v.bytes, els[size_t(b)]->v.bytes) < 0; };
    std::sort(order.begin(), order.end(), less);
    auto& t = d.get_type(all);
    VCHECK(log.size() >= order.size(), "rules applied: " << log.size());
    for (size_t i = 0; i < order.size(); ++i) VEQ(log[i], order[i], "rule applied in place " << i);
    for (size_t i = 0; i < els.size(); ++i) {
        auto want = canon ? &els[size_t(order[i])]->m : all[i];
        VEQ(t.mixins[i], want, "mixin in place " << i);
        auto look = own_of(els[i]->v.bytes);
        VEQ(t.has(look.sv.to_std()), true, "has by name " << str(look));
    }
    for (auto& e : els) { d.remove_mutation_rule(e->r); d.unregister_mixin(e->m); d.unregister_feature(e->f); d.unregister_type_class(e->tc); }
    for (auto& e : els) VCHECK(!d.get_mixin_info(e->v.sv.to_std()) && !d.get_feature_info(e->v.sv.to_std()) && !d.get_type_class(e->v.sv.to_std()), "found by the name of an unregistered element");
}

vp::Reg r1("C16", vp::Part{"views and bytes",
    "2..4 views (own exact-size blocks, windows of one buffer, null, copies and near copies of each other) of 0..300 bytes; every function and operator of sv.h, called from C++ and from C, on every one and every pair, against loops over the bytes. Non-trivial: two views one of which is a non-empty prefix of the other",
    views, 150000, 6000000});
vp::Reg r2("C16", vp::Part{"names by their bytes",
    "2..5 mixins, features, type classes and rules with names of generated bytes, some of them windows of one buffer; registration, lookups by equal and near-equal names, order of rules and of canonical types. Non-trivial: three names or more",
    names, 40000, 1500000});
}
