// C13: a type mutation against a vector model.
#include "common.hpp"
#include <dnmx/type_mutation.h>
#include <dnmx/type.h>

namespace c13 {
using namespace pt;
constexpr int NS = 4; // mixins with a static type
struct T0 {}; struct T1 {}; struct T2 {}; struct T3 {};
const mixin_info* cur[NS];
inline const mixin_info& _dynamix_get_mixin_info(const T0*) { return *cur[0]; }
inline const mixin_info& _dynamix_get_mixin_info(const T1*) { return *cur[1]; }
inline const mixin_info& _dynamix_get_mixin_info(const T2*) { return *cur[2]; }
inline const mixin_info& _dynamix_get_mixin_info(const T3*) { return *cur[3]; }
struct SF0 { static common_feature_info own; static const feature_info& info; };
struct SF1 { static common_feature_info own; static const feature_info& info; };
common_feature_info SF0::own; const feature_info& SF0::info = SF0::own;
common_feature_info SF1::own; const feature_info& SF1::info = SF1::own;

template <typename F> decltype(auto) with_static(int i, F&& f) {
    switch (i) { case 0: return f((T0*)0); case 1: return f((T1*)0); case 2: return f((T2*)0); default: return f((T3*)0); }
}

struct Mix { bytes name; common_mixin_info info; std::vector<feature_for_mixin> fs; std::vector<int> feats; bool reg = false; };
struct Feat { bytes name; common_feature_info own; feature_info* info = nullptr; };

void run(vp::Src& s) {
    recres dres, mres;
    const bool dup = s.chance(1, 4);
    std::vector<std::unique_ptr<Feat>> feats;
    std::vector<std::unique_ptr<Mix>> mix;
    std::unique_ptr<domain> dom;
    {
        domain_settings set = domain_settings_builder();
        set.allow_duplicate_feature_names = dup;
        dom.reset(new domain("dom", set, 0, nullptr, alc(dres)));
    }
    // features: 0 and 1 are reachable by type
    static int payload;
    SF0::own.id = SF1::own.id = invalid_feature_id;
    SF0::own.default_payload = SF1::own.default_payload = nullptr;
    int nf = int(s.range(2, 4));
    std::set<std::string> fnames, mnames;
    for (int i = 0; i < nf; ++i) {
        auto f = std::make_unique<Feat>();
        f->info = i == 0 ? &SF0::own : i == 1 ? &SF1::own : &f->own;
        std::string n;
        do { n = gen_name(s); if (n.empty()) n = "f"; if (!dup) while (fnames.count(n)) n += 'a'; } while (false);
        fnames.insert(n);
        f->name.set(n);
        f->info->name = f->name.sv();
        f->info->allow_clashes = true;
        if (s.chance(1, 3)) f->info->default_payload = &payload;
        feats.push_back(std::move(f));
    }
    int nm = int(s.range(1, 6));
    for (int i = 0; i < nm || i < NS; ++i) {
        auto m = std::make_unique<Mix>();
        m->reg = !s.chance(1, 4);
        std::string n = gen_name(s);
        if (m->reg) { if (n.empty()) n = "m"; while (mnames.count(n)) n += 'b'; mnames.insert(n); }
        m->name.set(n);
        m->info.name = m->name.sv();
        m->info.set_size_alignment(4, 4);
        int k = int(s.weighted({3, 2, 1}));
        for (int j = 0; j < k; ++j) { int f = int(s.index(nf)); m->feats.push_back(f); m->fs.push_back({feats[f]->info, &payload, j, 0}); }
        m->info.set_features(m->fs);
        mix.push_back(std::move(m));
    }
    nm = int(mix.size());
    for (int i = 0; i < NS; ++i) cur[i] = &mix[i]->info;
    for (auto& m : mix) if (m->reg) dom->register_mixin(m->info);
    VLOG(nm << " mixins, " << nf << " features" << (dup ? ", feature names may repeat" : ""));
    for (int i = 0; i < nm; ++i) VLOG("  M" << i << " " << show(mix[i]->name.view()) << (mix[i]->reg ? "" : " (unregistered)") << " features " << mix[i]->feats.size());

    auto idx = [&](const dnmx_mixin_info* i) { if (!i) return -1; for (int k = 0; k < nm; ++k) if (&mix[k]->info == i) return k; VFAIL("an unknown info"); };
    auto by_name_dom = [&](std::string_view n) { for (int i = 0; i < nm; ++i) if (mix[i]->reg && mix[i]->name.view() == n) return i; return -1; };

    std::vector<int> model;
    auto first = [&](int i) { auto f = std::find(model.begin(), model.end(), i); return f == model.end() ? -1 : int(f - model.begin()); };
    auto first_name = [&](std::string_view n) { for (size_t i = 0; i < model.size(); ++i) if (mix[model[i]]->name.view() == n) return int(i); return -1; };

    struct Mut { // owned either way
        type_mutation* m = nullptr; bool c = false;
        ~Mut() { if (c) dnmx_destroy_unused_type_mutation(m->to_c_hanlde()); else delete m; }
    } mu;
    mu.c = s.chance(1, 3);
    bool from_type = s.chance(1, 3);
    const type* base = nullptr;
    if (from_type) {
        std::vector<const mixin_info*> q;
        for (int i = 0; i < nm; ++i) if (mix[i]->reg && s.flip()) { q.push_back(&mix[i]->info); model.push_back(i); }
        base = &dom->get_type(q);
    }
    if (mu.c) {
        auto h = base ? dnmx_create_type_mutation_from_type(base) : dnmx_create_type_mutation_empty(dom->to_c_hanlde());
        VCHECK(h, "a mutation in C");
        VCHECK(dnmx_type_mutation_get_domain(h) == dom->to_c_hanlde(), "domain of a mutation in C");
        mu.m = type_mutation::from_c_handle(h);
    }
    else mu.m = base ? new type_mutation(*base, alc(mres)) : new type_mutation(*dom, alc(mres));
    type_mutation& m = *mu.m;
    auto h = m.to_c_hanlde();
    VCHECK(&m.dom == dom.get(), "domain of a mutation");

    auto list_str = [&] { std::ostringstream o; o << "["; for (auto i : model) o << " M" << i; o << " ]"; return o.str(); };
    auto check = [&](const char* what) {
        std::vector<int> got;
        for (auto* i : m.mixins) { VCHECK(i, what << ": a null mixin in the list"); got.push_back(idx(i)); }
        if (got != model) { std::ostringstream o; for (auto i : got) o << " M" << i; VFAIL(what << ": the list is [" << o.str() << " ], expected " << list_str()); }
        dnmx_mixin_index_t n = 99;
        auto* p = dnmx_type_mutation_get_mixins(h, &n);
        VEQ(n, model.size(), what << ": number of mixins in C");
        for (size_t i = 0; i < model.size(); ++i) VCHECK(p[i] == &mix[model[i]]->info, what << ": mixin " << i << " in C");
    };
    bool changed = false, refused = false, repeated = false;
    check("new mutation");
    if (s.chance(1, 12)) { // a long list
        size_t n = size_t(s.range(10, 300)); uint64_t x = s.raw();
        std::vector<const mixin_info*> l;
        for (size_t k = 0; k < n; ++k) { x = vp::mix64(x + 1); int i = int(x % uint64_t(nm)); l.push_back(&mix[i]->info); model.push_back(i); m.add(mix[i]->info); }
        VLOG("add " << n << " mixins");
        s.label("long list");
        check("many adds");
    }

    auto queries = [&] {
        for (int i = 0; i < nm; ++i) {
            bool want = first(i) >= 0;
            VEQ(m.has(mix[i]->info), want, "has M" << i << " in " << list_str());
            VEQ(m.lacks(mix[i]->info), !want, "lacks M" << i);
            VEQ(dnmx_type_mutation_has(h, &mix[i]->info), want, "has in C");
            if (i < NS) VEQ(with_static(i, [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; return m.has<T>() && !m.lacks<T>(); }), want, "has by type");
            auto n = mix[i]->name.view();
            int fn = first_name(n);
            const mixin_info* w = fn < 0 ? nullptr : &mix[model[fn]]->info;
            VCHECK(m.has(n) == w, "has by name " << show(n) << " in " << list_str());
            VEQ(m.lacks(n), !w, "lacks by name");
            VCHECK(dnmx_type_mutation_has_by_name(h, mix[i]->name.sv()) == w, "has by name in C");
        }
        for (int f = 0; f < nf; ++f) {
            auto& fi = *feats[f]->info;
            bool want = false;
            for (auto i : model) for (auto k : mix[i]->feats) want |= k == f;
            VEQ(m.implements_strong(fi), want, "implements_strong F" << f << " in " << list_str());
            VEQ(dnmx_type_mutation_implements_strong(h, &fi), want, "implements_strong in C");
            bool wi = want || fi.default_payload;
            VEQ(m.implements(fi), wi, "implements F" << f << " in " << list_str());
            VEQ(dnmx_type_mutation_implements(h, &fi), wi, "implements in C");
            if (f == 0) { VEQ(m.implements_strong<SF0>(), want, "implements_strong by type"); VEQ(m.implements<SF0>(), wi, "implements by type"); }
            if (f == 1) { VEQ(m.implements_strong<SF1>(), want, "implements_strong by type"); VEQ(m.implements<SF1>(), wi, "implements by type"); }
            // by name: the feature of that name first in the mixins
            const feature_info* wn = nullptr;
            for (auto i : model) { for (auto k : mix[i]->feats) if (!wn && feats[k]->name.view() == feats[f]->name.view()) wn = feats[k]->info; }
            VCHECK(m.implements_strong(feats[f]->name.view()) == wn, "implements_strong by name in " << list_str());
            VCHECK(dnmx_type_mutation_implements_strong_by_name(h, feats[f]->name.sv()) == wn, "implements_strong by name in C");
        }
        static const char nope[] = "no such name here";
        VCHECK(!m.has(nope) && m.lacks(nope) && !m.implements_strong(nope), "an unknown name");
    };

    while (s.more(10)) {
        vp::Src::Op op(s);
        int kind = int(s.weighted({6, 4, 2, 3, 3, 2, 4, 4, 4, 3, 3, 2, 2}));
        bool c = s.flip();
        int i = int(s.index(nm));
        int by = int(s.draw(3)); // info, name, type
        if (by == 2 && i >= NS) by = 0;
        std::string n(mix[i]->name.view());
        if (by == 1 && s.chance(1, 6)) n = gen_name(s) + "?";
        bytes nb; nb.set(n);
        auto nv = nb.view();
        long fault = -1;
        if (!mu.c && !c && s.chance(1, 8)) fault = 0;
        mres.count = 0; mres.fail_at = fault;
        auto before = model;
        std::string w;
        auto st = [&](auto f) -> decltype(auto) { return with_static(i, f); };
        // the allocation may or may not be needed: either the whole effect or none
        auto judged = [&](int oc, int want, auto&& apply) {
            mres.fail_at = -1;
            if (fault >= 0 && oc == oc_alloc) { check("after a failed allocation"); return false; }
            VOC(oc, want, "operation on " << show(nv));
            if (want == oc_ok) apply(); else refused = true;
            return true;
        };
        switch (kind) {
        case 0: { // add
            if (by == 1) {
                int d = by_name_dom(nv);
                VLOG("add name " << show(nv));
                const mixin_info* r = nullptr;
                if (s.flip()) judged(outcome([&] { r = m.safe_add(nv); }), oc_ok, [&] { VEQ(idx(r), d, "safe_add result"); if (d >= 0) model.push_back(d); else refused = true; });
                else judged(outcome([&] { r = &m.add(nv); }), d < 0 ? oc_type : oc_ok, [&] { VEQ(idx(r), d, "add result"); model.push_back(d); });
            }
            else {
                VLOG("add M" << i);
                bool ok = true;
                judged(outcome([&] {
                    if (c) ok = dnmx_type_mutation_add(h, &mix[i]->info);
                    else if (by == 2) ok = &st([&](auto* t) -> const mixin_info& { return m.add<std::remove_pointer_t<decltype(t)>>(); }) == &mix[i]->info;
                    else m.add(mix[i]->info);
                }), oc_ok, [&] { VCHECK(ok, "result of add"); model.push_back(i); });
            }
            break;
        }
        case 1: { // add if lacking
            if (by == 1) {
                int d = by_name_dom(nv), f = first_name(nv);
                VLOG("add if lacking " << show(nv));
                const mixin_info* r = nullptr;
                auto ap = [&] { int want = f >= 0 ? -1 : d; VEQ(idx(r), want, "result of adding if lacking"); if (want >= 0) model.push_back(want); };
                if (s.flip()) judged(outcome([&] { r = m.safe_add_if_lacking(nv); }), oc_ok, ap);
                else judged(outcome([&] { r = m.add_if_lacking(nv); }), f < 0 && d < 0 ? oc_type : oc_ok, ap);
            }
            else {
                VLOG("add M" << i << " if lacking");
                bool r = false;
                judged(outcome([&] {
                    if (c) r = dnmx_type_mutation_add_if_lacking(h, &mix[i]->info);
                    else if (by == 2) r = st([&](auto* t) { return m.add_if_lacking<std::remove_pointer_t<decltype(t)>>(); });
                    else r = m.add_if_lacking(mix[i]->info);
                }), oc_ok, [&] { bool want = first(i) < 0; VEQ(r, want, "result of adding if lacking"); if (want) model.push_back(i); });
            }
            break;
        }
        case 2: case 3: case 4: { // remove
            if (by == 1) {
                int f = first_name(nv);
                VLOG("remove " << show(nv));
                auto r = c ? dnmx_type_mutation_remove_by_name(h, nb.sv()) : m.remove(nv);
                VEQ(idx(r), (f < 0 ? -1 : model[f]), "result of removing by name");
                if (f >= 0) model.erase(model.begin() + f);
            }
            else {
                int f = first(i);
                VLOG("remove M" << i);
                bool r = c ? dnmx_type_mutation_remove(h, &mix[i]->info) : by == 2 ? st([&](auto* t) { return m.remove<std::remove_pointer_t<decltype(t)>>(); }) : m.remove(mix[i]->info);
                VEQ(r, f >= 0, "result of removing");
                if (f >= 0) model.erase(model.begin() + f);
            }
            break;
        }
        case 5: case 6: case 7: { // to back
            int f = by == 1 ? first_name(nv) : first(i);
            VLOG("to back " << (by == 1 ? show(nv) : "M" + std::to_string(i)));
            int want_i = f < 0 ? -1 : model[f];
            auto ap = [&] { model.erase(model.begin() + f); model.push_back(want_i); };
            if (c) {
                bool ok;
                if (by == 1) { auto r = dnmx_type_mutation_to_back_by_name(h, nb.sv()); VEQ(idx(r), want_i, "result of to_back by name in C"); ok = !!r; }
                else ok = dnmx_type_mutation_to_back(h, &mix[i]->info);
                VEQ(ok, f >= 0, "result of to_back in C");
                if (f >= 0) ap(); else refused = true;
            }
            else {
                const mixin_info* r = nullptr;
                judged(outcome([&] {
                    if (by == 1) r = &m.to_back(nv);
                    else if (by == 2) st([&](auto* t) { m.to_back<std::remove_pointer_t<decltype(t)>>(); });
                    else m.to_back(mix[i]->info);
                }, &w), f < 0 ? oc_type : oc_ok, [&] { if (by == 1) VEQ(idx(r), want_i, "result of to_back by name"); ap(); });
            }
            break;
        }
        case 8: case 9: { // dedup
            VLOG("dedup");
            if (c) dnmx_type_mutation_dedup(h); else m.dedup();
            std::vector<int> r;
            for (size_t k = 0; k < model.size(); ++k) if (std::find(model.begin() + k + 1, model.end(), model[k]) == model.end()) r.push_back(model[k]);
            if (r.size() + 1 < model.size()) repeated = true;
            model = r;
            break;
        }
        case 10: { // set in C
            std::vector<const mixin_info*> l; std::vector<int> nmdl;
            int k = int(s.weighted({1, 2, 3, 3, 2, 2, 1, 1, 1}));
            for (int j = 0; j < k; ++j) { int x = int(s.index(nm)); l.push_back(&mix[x]->info); nmdl.push_back(x); }
            VLOG("set " << k << " mixins");
            bool own = model.size() > 1 && s.chance(1, 4); // from the own list
            (void)own;
            bool set_ok = dnmx_type_mutation_set_mixins(h, l.data(), dnmx_mixin_index_t(l.size()));
            mres.fail_at = -1;
            if (!set_ok && fault >= 0) { check("after a failed allocation"); break; }
            VCHECK(set_ok, "set_mixins");
            model = nmdl;
            break;
        }
        case 11: queries(); break;
        default: { // a copy is another mutation
            VLOG("copy and edit the copy");
            type_mutation cp(m);
            cp.add(mix[i]->info);
            VEQ(cp.mixins.size(), model.size() + 1, "copy of a mutation");
            break;
        }
        }
        mres.fail_at = -1;
        check("after the operation");
        if (model != before) changed = true;
        std::set<int> u(model.begin(), model.end());
        if (u.size() + 1 < model.size()) repeated = true;
    }
    queries();
    // what it asks for is the list it has
    bool valid = true;
    { std::set<int> u; for (auto i : model) { if (!mix[i]->reg || !u.insert(i).second) valid = false; } }
    if (s.flip()) {
        std::vector<const mixin_info*> keep(m.mixins.begin(), m.mixins.end());
        const type* t = nullptr;
        int oc = outcome([&] { type_mutation cp(m); t = &dom->get_type(std::move(cp)); });
        VOC(oc, valid ? oc_ok : oc_type, "type of " << list_str());
        if (valid) VCHECK(std::vector<const mixin_info*>(t->mixins.begin(), t->mixins.end()) == keep, "mixins of the requested type");
    }
    VCHECK(mres.err.empty(), mres.err);
    if (changed && (refused || repeated)) s.interesting();
    if (repeated) s.label("list with several repeated mixins");
    if (refused) s.label("operation refused");
    if (from_type) s.label("started from a type");
}
vp::Reg r("C13", {"edits", "random edits by info, name and type, in C++ and C, of a list of registered and unregistered mixins, compared with a vector; non-trivial: the list is changed and an operation refused or several repetitions listed", run, 300000, 15000000});
}
