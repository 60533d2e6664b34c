// Domains with hundreds of mixins, features, rules, types and objects, and extreme numbers: what
// depends on how many there are. One program, of which each property checks its own part.
#include "common.hpp"
#include <dynamix/mutate_to.hpp>
#include <dnmx/mutate.h>
#include <dnmx/object.h>
#include <unordered_map>

namespace large {
using namespace pt;

struct Rng { uint64_t x; uint64_t operator()() { return x = vp::mix64(x + 0x9e3779b97f4a7c15ull); } size_t operator()(size_t n) { return size_t((*this)() % n); } };
template <typename V> void shuffle(V& v, Rng& r) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r(i)]); }

struct Mx;
std::unordered_map<const void*, Mx*> live; // instances
std::string bad;                           // what an instance saw
struct Ft { std::string name; common_feature_info info; int reg = -1; };
struct Mx {
    int idx; std::string name; common_mixin_info info;
    std::vector<feature_for_mixin> ff; std::vector<int> fs;
    int reg = -1; int made = 0, moved = 0, gone = 0, asgn = 0, masgn = 0, cmp = 0;
    unsigned char fill() const { return (unsigned char)(idx * 37 + 11); }
};
Mx* of(const dnmx_mixin_info* i) { return reinterpret_cast<Mx*>(i->user_data); }
void whole(const Mx* m, const void* p, const char* when) {
    auto f = live.find(p);
    if (f == live.end() || f->second != m) { if (bad.empty()) bad = m->name + " is not at its place " + when; return; }
    for (uint32_t i = 0; i < m->info.size; ++i) if (static_cast<const unsigned char*>(p)[i] != m->fill()) { if (bad.empty()) bad = "the bytes of " + m->name + " changed, seen " + when; return; }
}
void born(Mx* m, void* p) {
    if (!live.emplace(p, m).second && bad.empty()) bad = m->name + " is made where a mixin is";
    if (m->info.alignment && uintptr_t(p) % m->info.alignment && bad.empty()) bad = m->name + " is not aligned";
    memset(p, m->fill(), m->info.size);
}
long fail_in = -1; // which construction from now is refused
dnmx_error_return_t fn_init(const dnmx_mixin_info* i, void* p) { auto m = of(i); if (fail_in >= 0 && !fail_in--) return 77; ++m->made; born(m, p); return 0; }
dnmx_error_return_t fn_copy(const dnmx_mixin_info* i, void* p, const void* src) { auto m = of(i); if (fail_in >= 0 && !fail_in--) return 77; whole(m, src, "when copied"); ++m->made; born(m, p); return 0; }
void fn_move(const dnmx_mixin_info* i, void* p, void* src) noexcept { auto m = of(i); whole(m, src, "when moved"); ++m->moved; born(m, p); }
void fn_destroy(const dnmx_mixin_info* i, void* p) noexcept { auto m = of(i); whole(m, p, "when destroyed"); ++m->gone; memset(p, 0xdd, m->info.size); live.erase(p); }
dnmx_error_return_t fn_asgn(const dnmx_mixin_info* i, void* p, const void* src) { auto m = of(i); ++m->asgn; whole(m, p, "when assigned to"); whole(m, src, "when assigned"); return 0; }
void fn_masgn(const dnmx_mixin_info* i, void* p, void* src) noexcept { auto m = of(i); ++m->masgn; whole(m, p, "when assigned to"); whole(m, src, "when assigned"); }
const Mx* differs = nullptr; int differs_by = 0; const void* differs_lhs = nullptr; // the one mixin of which two instances are not equal
int fn_cmp(const dnmx_mixin_info* i, const void* a, const void* b) noexcept { auto m = of(i); ++m->cmp; whole(m, a, "when compared"); whole(m, b, "when compared"); return m == differs ? (a == differs_lhs ? differs_by : -differs_by) : 0; }
bool fn_eq(const dnmx_mixin_info* i, const void* a, const void* b) noexcept { return !fn_cmp(i, a, b); }
// an operation which constructs
struct Op { Mx* m; int calls = 0, updates = 0; };
struct OpF { Op* o; void operator()(init_new_args a) { auto m = of(&a.info); if (m != o->m && bad.empty()) bad = "an operation for " + o->m->name + " is given " + m->name; ++m->made; ++o->calls; born(m, a.mixin_buf); } };
dnmx_error_return_t op_init(dnmx_mutate_func_args a) { auto m = of(a.info); ++m->made; ++reinterpret_cast<Op*>(a.user_data)->calls; born(m, a.mixin_buf); return 0; }
dnmx_error_return_t op_update(dnmx_mutate_func_args a) { whole(of(a.info), a.mixin_buf, "when updated"); ++reinterpret_cast<Op*>(a.user_data)->updates; return 0; }
template <size_t... I> void many_to(object& o, const type& t, std::vector<Op>& v, std::index_sequence<I...>) { mutate_to(o, t, construct(v[I].m->info, OpF{&v[I]})...); }
template <size_t... I> void many(object& o, std::vector<Op>& v, std::index_sequence<I...>) { mutate(o, mutate_ops::add(v[I].m->info, OpF{&v[I]})...); }

enum { add, rem, back };
struct Rl { std::string name; mutation_rule_info info; int kind; Mx* m; size_t refs = 1; };
error_return_t apply(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto r = reinterpret_cast<Rl*>(ud);
    auto m = type_mutation::from_c_handle(h);
    if (r->kind == add) m->add_if_lacking(r->m->info);
    else if (r->kind == rem) m->remove(r->m->info);
    else if (m->has(r->m->info)) m->to_back(r->m->info);
    return result_success;
}
using List = std::vector<Mx*>;
bool has(const List& l, const Mx* m) { return std::find(l.begin(), l.end(), m) != l.end(); }
bool canon(const Mx* a, const Mx* b) {
    if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
    if (a->name != b->name) return a->name < b->name;
    return a->reg < b->reg;
}

struct Run {
    Rng r; recres dres, ores;
    std::vector<std::unique_ptr<Mx>> mix; std::vector<std::unique_ptr<Ft>> feats; std::vector<std::unique_ptr<Rl>> rules; // rules in their order
    std::vector<int> mid, fid; // by id: index or -1
    bool canonical; std::unique_ptr<domain> d;

    static int lowest(std::vector<int>& ids, int v) { for (size_t i = 0; i < ids.size(); ++i) if (ids[i] < 0) { ids[i] = v; return int(i); } ids.push_back(v); return int(ids.size() - 1); }
    void reg(Mx& m) {
        for (int f : m.fs) if (feats[f]->reg < 0) feats[f]->reg = lowest(fid, f);
        m.reg = lowest(mid, m.idx);
        d->register_mixin(m.info);
    }
    void unreg(Mx& m) { d->unregister_mixin(m.info); mid[m.reg] = -1; m.reg = -1; }
    // false: refused
    bool settle(const List& in, List& l) {
        l.clear();
        for (auto m : in) if (!m->info.dependency) l.push_back(m);
        List last = l;
        for (size_t pass = 0; ; ++pass) {
            for (auto& ru : rules) {
                auto f = std::find(l.begin(), l.end(), ru->m);
                if (ru->kind == add) { if (f == l.end()) l.push_back(ru->m); }
                else if (f != l.end()) { l.erase(f); if (ru->kind == back) l.push_back(ru->m); }
            }
            if (canonical) std::sort(l.begin(), l.end(), canon);
            if (l == last) break;
            if (pass == std::min<size_t>(5, rules.size() + canonical)) return false;
            last = l;
        }
        std::set<Mx*> seen;
        for (auto m : l) if (m->reg < 0 || !seen.insert(m).second) return false;
        for (size_t f = 0; f < feats.size(); ++f) if (!feats[f]->info.allow_clashes) {
            std::set<std::pair<int, int>> bp;
            for (auto m : l) for (auto& x : m->ff) if (x.info == &feats[f]->info && !bp.insert({x.bid, x.priority}).second) return false;
        }
        return true;
    }
};

enum { f_types = 1, f_feats = 2, f_reg = 4, f_objs = 8, f_rules = 16, f_gc = 32, f_cmp = 64, f_trav = 128, f_ops = 256, f_copy = 512, f_fault = 1024, f_c = 2048 };

void run(vp::Src& s, int focus) {
    live.clear(); bad.clear(); fail_in = -1; differs = nullptr;
    size_t nm = size_t(s.range(1, int64_t(s.oneof({40, 80, 150, 300, 700})) + ((focus & f_reg) ? 400 : 0)));
    size_t nf = size_t(s.range(1, s.oneof({3, 20, 150, 400})));
    size_t per = (focus & f_feats) ? s.index(6) : s.index(3);
    size_t nr = (focus & f_rules) ? size_t(s.range(0, s.oneof({3, 20, 150, 400}))) : (focus & (1 << 16)) ? s.oneof({0, 0, 3, 12}) : 0;
    size_t nt = size_t(s.range(1, (focus & (f_gc | f_trav)) ? s.oneof({10, 80, 300}) : 6));
    if (nm > 200 && nt > 80) nt = 80;
    size_t no = (focus & (f_objs | f_ops | f_copy | f_fault | f_c | f_cmp)) ? size_t(s.range(1, s.oneof({3, 10, 300}))) : (focus & f_gc) ? s.index(20) : 0;
    size_t dep = s.index(3), gone_pct = s.oneof({0, 10, 40, 90}), big = s.index(3);
    Run w; auto& r = w.r; r.x = s.raw();
    domain_settings set = domain_settings_builder();
    w.canonical = set.canonicalize_types = s.chance(1, 3);
    set.allow_duplicate_mixin_names = true;
    VLOG(nm << " mixins, " << nf << " features, up to " << per << " of a mixin, " << nr << " rules, " << nt << " types, " << no << " objects" << (w.canonical ? ", canonical" : ""));
    if (nm > 64 || nf > 64 || nr > 64 || no > 64 || nt > 64) s.interesting();
    if (nm > 255) s.label("more than 255 mixins");
    if (nf > 255) s.label("more than 255 features");
    w.d = std::make_unique<domain>("large", set, 0, nullptr, alc(w.dres));
    auto& d = *w.d;
    static int pl;
    for (size_t i = 0; i < nf; ++i) {
        auto f = std::make_unique<Ft>();
        f->name = "f" + std::to_string(i); f->info.name = dnmx_sv::from_std(f->name);
        f->info.allow_clashes = i % 7 != 3; if (i % 3 == 0) f->info.default_payload = &pl;
        w.feats.push_back(std::move(f));
    }
    static const int32_t odd[] = {0, 0, 0, 1, -1, INT32_MIN, INT32_MAX, 65536, -65536, 256, 128, 255, -256, 1 << 30};
    auto num = [&](size_t o) { return r(o) ? odd[r(3)] : odd[r(std::size(odd))]; };
    size_t lack = r(2), popular = r(nf), namelen = r(3) ? 0 : 40 + r(300);
    for (size_t i = 0; i < nm; ++i) {
        auto m = std::make_unique<Mx>();
        m->idx = int(i);
        // names with a common beginning, some the same
        m->name = std::string(namelen, 'n') + (r(20) ? std::to_string(i) : std::to_string(r(5)));
        auto& in = m->info;
        in.name = dnmx_sv::from_std(m->name); in.user_data = uintptr_t(m.get());
        static const uint32_t al[] = {8, 8, 1, 4, 16, 32, 64};
        in.set_size_alignment(uint32_t(1 + (big && !r(20) ? r(5000) : r(60))), al[r(std::size(al))]);
        in.init = fn_init; in.copy_init = fn_copy; in.destroy = fn_destroy; if (r(8)) in.move_init = fn_move;
        if (!lack || r(60)) in.copy_asgn = fn_asgn; if (r(2)) in.move_asgn = fn_masgn; else if (!lack || r(60)) in.move_init = fn_move;
        if (!lack || r(60)) in.compare = fn_cmp; if (r(2)) in.equals = fn_eq;
        in.force_external = !r(6); in.order_priority = num(3); in.dependency = dep && !r(dep * 8);
        std::set<int> fs; for (size_t k = per ? r(per + 1) : 0; k--; ) fs.insert(int(r(3) ? r(nf) : popular));
        m->fs.assign(fs.begin(), fs.end()); shuffle(m->fs, r);
        for (int f : m->fs) { feature_for_mixin x = {}; x.info = &w.feats[f]->info; x.payload = (void*)(uintptr_t(i) * 4096 + uintptr_t(f) + 1);
            x.bid = num(2); x.priority = w.feats[f]->info.allow_clashes || !r(200) ? num(2) : int(i) - 1000; m->ff.push_back(x); }
        in.features = m->ff.data(); in.num_features = m->ff.size();
        w.mix.push_back(std::move(m));
    }
    // ---- registration, with gaps filled again
    std::vector<Mx*> order; for (auto& m : w.mix) order.push_back(m.get());
    shuffle(order, r);
    auto check_reg = [&](const char* when) {
        for (auto& m : w.mix) {
            if (m->reg < 0) { VCHECK(m->info.id == invalid_mixin_id && !m->info.dom, "mixin " << m->idx << ' ' << when << " is not registered but has an id"); continue; }
            VEQ(m->info.id.i, uint32_t(m->reg), "id of mixin " << m->idx << ' ' << when);
            VCHECK(d.get_mixin_info(m->info.id) == &m->info, "mixin by id " << m->reg << ' ' << when);
            auto n = d.get_mixin_info(m->name); VCHECK(n && n->name.to_std() == m->name, "mixin by name " << m->name << ' ' << when);
        }
        for (auto& f : w.feats) {
            VEQ(f->info.id.i, f->reg < 0 ? dnmx_invalid_id : uint32_t(f->reg), "id of feature " << f->name << ' ' << when);
            VCHECK(d.get_feature_info(f->name) == (f->reg < 0 ? nullptr : &f->info), "feature by name " << f->name << ' ' << when);
            if (f->reg >= 0) VCHECK(d.get_feature_info(f->info.id) == &f->info, "feature by id " << f->reg << ' ' << when);
        }
        for (size_t i = 0; i < w.mid.size() + 70; ++i) VEQ(d.get_mixin_info(mixin_id{uint32_t(i)}) != nullptr, i < w.mid.size() && w.mid[i] >= 0, "a mixin of id " << i << ' ' << when);
        for (size_t i = 0; i < w.fid.size() + 70; ++i) VEQ(d.get_feature_info(feature_id{uint32_t(i)}) != nullptr, i < w.fid.size() && w.fid[i] >= 0, "a feature of id " << i << ' ' << when);
    };
    for (auto m : order) w.reg(*m);
    if (focus & f_reg) check_reg("after registration");
    std::vector<Mx*> out;
    for (auto m : order) if (r(100) < gone_pct) { w.unreg(*m); out.push_back(m); }
    for (auto& f : w.feats) if (f->reg >= 0 && !r(4)) {
        bool used = false; for (auto& m : w.mix) if (m->reg >= 0) for (auto x : m->fs) used |= w.feats[x] == f;
        if (!used) { d.unregister_feature(f->info); w.fid[f->reg] = -1; f->reg = -1; }
    }
    if (focus & f_reg) check_reg("after some are unregistered");
    shuffle(out, r);
    for (auto m : out) if (r(10)) w.reg(*m);
    if (focus & f_reg) check_reg("after some are registered again");
    List regd, unregd; for (auto& m : w.mix) (m->reg < 0 ? unregd : regd).push_back(m.get());
    // type classes by name
    std::vector<std::pair<std::string, type_class>> tcs(focus & f_reg ? r(200) : 0);
    for (size_t i = 0; i < tcs.size(); ++i) { tcs[i].first = "class" + std::to_string(i); tcs[i].second = {}; tcs[i].second.name = dnmx_sv::from_std(tcs[i].first); tcs[i].second.matches = [](dnmx_type_handle) noexcept { return true; }; d.register_type_class(tcs[i].second); }
    for (size_t i = 0; i < tcs.size(); ++i) if (i % 3 == 1) d.unregister_type_class(tcs[i].second);
    for (size_t i = 0; i < tcs.size(); ++i) VCHECK(d.get_type_class(tcs[i].first) == (i % 3 == 1 ? nullptr : &tcs[i].second), "type class " << i << " of " << tcs.size());
    for (size_t i = 0; i < tcs.size(); ++i) if (i % 3 != 1) d.unregister_type_class(tcs[i].second);
    // ---- rules: of every mixin at most one adds or removes it
    {
        std::vector<Mx*> pool = regd; shuffle(pool, r);
        for (size_t i = 0; i < nr && !regd.empty(); ++i) {
            auto x = std::make_unique<Rl>();
            x->kind = i < pool.size() ? int(r(3)) : int(back); x->m = i < pool.size() ? pool[i] : pool[r(pool.size())];
            if (i >= pool.size()) { bool once = true; for (auto& o : w.rules) once &= o->m != x->m; if (!once) continue; }
            x->name = (r(2) ? "r" : "a") + std::to_string(r(40)); x->info = {};
            x->info.order_priority = num(3); x->info.apply = apply; x->info.user_data = uintptr_t(x.get());
            for (auto& o : w.rules) if (o->name == x->name && o->info.order_priority == x->info.order_priority) { x->name += "." + std::to_string(i); break; } // of equal ones the order is not specified
            x->info.name = dnmx_sv::from_std(x->name);
            w.rules.push_back(std::move(x));
        }
        for (auto& x : w.rules) { x->refs += !r(5); if (!r(20)) x->refs += 250 + r(20); for (size_t i = 0; i < x->refs; ++i) d.add_mutation_rule(x->info); }
        std::sort(w.rules.begin(), w.rules.end(), [](auto& a, auto& b) {
            if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
            return a->name < b->name; });
        VEQ(d.num_mutation_rules(), w.rules.size() + w.canonical, "rules");
    }
    // ---- types
    struct Ty { const type* t; List l; };
    std::vector<Ty> types; types.reserve(nt * 4 + 128); // objects point into it
    std::map<List, const type*> known;
    auto request = [&](const List& in) -> const type* {
        List l; bool ok = w.settle(in, l);
        std::vector<const mixin_info*> q; for (auto m : in) q.push_back(&m->info);
        const type* t = nullptr; size_t n = d.num_types();
        int oc = outcome([&] { if (r(2)) t = &d.get_type(q); else { type_mutation mu(d, r(2) ? allocator{} : alc(w.ores)); for (auto m : q) mu.add(*m); t = &d.get_type(std::move(mu)); } });
        VOC(oc, ok ? oc_ok : oc_type, "a type of " << in.size() << " mixins");
        if (!ok) { VEQ(d.num_types(), n, "types after a refused request"); return nullptr; }
        VEQ(t->mixins.size(), l.size(), "number of mixins of a type requested with " << in.size());
        for (size_t i = 0; i < l.size(); ++i) VCHECK(t->mixins[i] == &l[i]->info, "mixin " << i << " of a type of " << l.size());
        if (l.empty()) VCHECK(t == &d.get_empty_type(), "the empty type");
        else {
            auto k = known.emplace(l, t);
            VCHECK(k.first->second == t, "another type for the same list");
            if (k.second) { for (auto& o : types) VCHECK(o.t != t, "one type for two lists"); types.push_back({t, l}); }
            VEQ(d.num_types(), types.size(), "number of types");
        }
        return t;
    };
    auto some = [&] {
        List l = regd; shuffle(l, r);
        size_t n = l.size();
        switch (r(6)) { case 0: break; case 1: if (n) --n; break; case 2: n /= 2; break; case 3: n = std::min(n, r(10)); break; default: n = r(n + 1); }
        if (nt > 20) n = std::min(n, r(30));
        l.resize(n);
        if (!r(3)) std::sort(l.begin(), l.end(), [](auto a, auto b) { return a->reg < b->reg; }); else if (!r(4)) std::sort(l.begin(), l.end(), canon);
        return l;
    };
    List last;
    for (size_t i = 0; i < nt; ++i) {
        auto l = some();
        if ((focus & f_types) && !r(6) && !l.empty()) { if (r(2) && !unregd.empty()) l.insert(l.begin() + long(r(l.size() + 1)), unregd[r(unregd.size())]); else { auto m = l[r(l.size())]; l.insert(l.begin() + long(r(l.size() + 1)), m); } }
        auto t = request(l);
        if (focus & f_types) {
            auto again = request(l); VCHECK(again == t, "a repeated request");
            if (l.size() > 1) { auto p = l; std::swap(p[r(p.size())], p[r(p.size())]); request(p); p = l; p.pop_back(); request(p); }
        }
    }
    for (auto& y : types) {
        auto& t = *y.t;
        if (focus & (f_types | f_objs | f_copy)) {
            for (auto& m : w.mix) {
                auto f = std::find(y.l.begin(), y.l.end(), m.get());
                mixin_index_t want = f == y.l.end() ? invalid_mixin_index : mixin_index_t(f - y.l.begin());
                VEQ(t.has(m->info), want != invalid_mixin_index, "a type of " << y.l.size() << " has mixin " << m->idx);
                if (m->reg >= 0) VEQ(t.index_of(m->info.id), want, "index of mixin " << m->idx << " of id " << m->reg);
                if (!r(4)) { auto n = std::find_if(y.l.begin(), y.l.end(), [&](auto x) { return x->name == m->name; }); VEQ(t.index_of(m->name), n == y.l.end() ? invalid_mixin_index : mixin_index_t(n - y.l.begin()), "index by name " << m->name); }
            }
            for (uint32_t id : {uint32_t(w.mid.size()), uint32_t(w.mid.size()) + 64, 0x7fffffffu, dnmx_invalid_id}) VCHECK(t.index_of(mixin_id{id}) == invalid_mixin_index, "index of an id beyond");
        }
        if (focus & f_feats) for (size_t f = 0; f < nf; ++f) {
            struct P { int b, p; size_t m; const feature_for_mixin* x; };
            std::vector<P> v;
            for (size_t i = 0; i < y.l.size(); ++i) for (auto& x : y.l[i]->ff) if (x.info == &w.feats[f]->info) v.push_back({x.bid, x.priority, i, &x});
            std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.b != b.b ? a.b > b.b : a.p != b.p ? a.p < b.p : a.m > b.m; });
            auto& fi = w.feats[f]->info;
            VEQ(t.implements_strong(fi), !v.empty(), "a type implements " << w.feats[f]->name); VEQ(t.implements(fi), !v.empty() || fi.default_payload, "a type implements " << w.feats[f]->name);
            if (f % 8 == 0) VEQ(t.implements_strong(w.feats[f]->name), !v.empty(), "a type implements by name");
            auto e = t.ftable_at(fi.id);
            VEQ(bool(e), !v.empty(), "the entry of " << w.feats[f]->name);
            if (v.empty()) { for (size_t k = r(3); k-- && !y.l.empty(); ) VCHECK(!t.find_next_implementer(fi, y.l[r(y.l.size())]->info), "a next implementer of what is not implemented"); continue; }
            VEQ(size_t(e.end - e.begin), v.size(), "payloads of " << w.feats[f]->name);
            size_t top = 0; while (top + 1 < v.size() && v[top + 1].b == v[0].b) ++top;
            VEQ(size_t(e.top_bid_back - e.begin), top, "the top bidders of " << v.size() << " payloads");
            for (size_t i = 0; i < v.size(); ++i) {
                VCHECK(e.begin[i].payload == v[i].x->payload && e.begin[i].mixin_index == v[i].m && e.begin[i].data == v[i].x, "payload " << i << " of " << v.size());
                auto n = t.find_next_implementer(fi, y.l[v[i].m]->info);
                VCHECK(n == (i + 1 < v.size() ? e.begin + i + 1 : nullptr), "the implementer after number " << i << " of " << v.size());
                size_t a = i + 1; while (a < v.size() && v[a].b == v[i].b) ++a;
                size_t z = a; while (z < v.size() && v[z].b == v[a].b) ++z;
                auto b = t.find_next_bidder_set(fi, y.l[v[i].m]->info);
                VEQ(b.size(), z - a, "bidders after number " << i << " of " << v.size()); if (z > a) VCHECK(b.data() == e.begin + a, "the bidders after number " << i);
            }
        }
    }
    if (focus & f_cmp) for (size_t k = 0; k < 40 && !types.empty(); ++k) {
        auto& a = types[r(types.size())]; auto& b = types[r(types.size())];
        int want = 0;
        for (size_t i = 0; !want && i < std::max(a.l.size(), b.l.size()); ++i) {
            if (i >= a.l.size() || i >= b.l.size()) want = a.l.size() < b.l.size() ? -1 : 1;
            else if (a.l[i] != b.l[i]) want = canon(a.l[i], b.l[i]) ? -1 : 1;
        }
        int got = a.t->compare(*b.t);
        VEQ((got > 0) - (got < 0), want, "types of " << a.l.size() << " and " << b.l.size() << " mixins compared");
    }
    // ---- objects
    {
        struct Ob { std::unique_ptr<object> o; Ty* y; };
        std::vector<Ob> obs; std::map<const type*, size_t> count;
        for (auto& y : types) count[y.t] = 0;
        auto fine = [&](Ob& b, const char* when) {
            VCHECK(&b.o->get_type() == b.y->t, "type of an object " << when);
            std::vector<std::pair<uintptr_t, uint32_t>> at;
            for (size_t i = 0; i < b.y->l.size(); ++i) {
                auto m = b.y->l[i]; auto p = b.o->get_at(mixin_index_t(i));
                VCHECK(p, "mixin " << i << ' ' << when); whole(m, p, when); VCHECK(bad.empty(), bad);
                VCHECK(b.o->get(m->info) == p && object_of(p) == b.o.get(), "mixin " << i << " or its owner " << when);
                at.push_back({uintptr_t(p), m->info.size});
            }
            std::sort(at.begin(), at.end());
            for (size_t i = 1; i < at.size(); ++i) VCHECK(at[i - 1].first + at[i - 1].second <= at[i].first, "two mixins share storage " << when);
            for (auto& c : count) VEQ(c.first->num_objects(), c.second, "objects of a type " << when);
        };
        if (no && !types.empty()) {
            for (size_t i = 0; i < no; ++i) {
                auto y = &types[no > 20 && types.size() > 2 ? r(2) : r(types.size())];
                if (no > 20 && y->l.size() > 60 && i > 20) continue;
                if (obs.empty() || r(4)) obs.push_back({std::make_unique<object>(*y->t, r(2) ? allocator{} : alc(w.ores)), y});
                else { auto& src = obs[r(obs.size())]; y = src.y; obs.push_back({std::make_unique<object>(src.o->copy()), y}); }
                ++count[y->t];
                if (i < 20 || i + 1 == no) fine(obs.back(), "after creation");
            }
            auto zero = [&] { for (auto& m : w.mix) m->made = m->moved = m->gone = m->asgn = m->masgn = m->cmp = 0; };
            // from the type of the object to another; refused: nothing happened
            auto change = [&](Ob& b, Ty* y, const char* name, int expect, auto&& f) {
                std::map<Mx*, const void*> ext; for (auto m : b.y->l) if (m->info.external()) ext[m] = b.o->get(m->info);
                zero();
                int oc = outcome([&] { f(); });
                VCHECK(oc & expect, name << " ended with " << oc_name(oc));
                VCHECK(bad.empty(), bad);
                if (oc != oc_ok) { for (auto& m : w.mix) { VEQ(m->made, m->gone, "mixin " << m->idx << " made and destroyed by a refused " << name); VEQ(m->moved + m->asgn + m->masgn, 0, "mixin " << m->idx << " in a refused " << name); } s.label("refused in the middle"); }
                else {
                    for (auto& m : w.mix) {
                        bool was = has(b.y->l, m.get()), is = has(y->l, m.get());
                        VEQ(m->made, !was && is, "how often mixin " << m->idx << " is made by " << name);
                        VEQ(m->gone, (was && !is) + m->moved, "how often mixin " << m->idx << " is destroyed by " << name);
                        VCHECK(m->moved <= (was && is && !m->info.external()), "mixin " << m->idx << " is moved");
                        if (was && is && m->info.external()) VCHECK(b.o->get(m->info) == ext[m.get()], "an external mixin keeps its address");
                    }
                    --count[b.y->t]; ++count[y->t]; b.y = y;
                }
                fine(b, name);
                return oc;
            };
            // the type of a list of mixins, which is asked for beforehand
            auto made_type = [&](const List& in) -> Ty* {
                auto t = request(in); VCHECK(types.size() < types.capacity(), "too many types for the harness");
                if (!t || t == &d.get_empty_type()) return nullptr;
                count.emplace(t, 0);
                for (auto& y : types) if (y.t == t) return &y;
                return nullptr;
            };
            auto ops_for = [&](const List& l, size_t n) { std::vector<Op> v; for (size_t i = 0; i < n; ++i) v.push_back({!l.empty() && r(3) ? l[r(l.size())] : regd[r(regd.size())], 0, 0}); return v; };
            std::vector<int> kinds;
            if (focus & f_objs) kinds.insert(kinds.end(), {0, 0});
            if (focus & f_ops) kinds.insert(kinds.end(), {1, 1, 2});
            if (focus & f_c) kinds.insert(kinds.end(), {3, 4});
            if (focus & f_copy) kinds.insert(kinds.end(), {5, 6, 7, 8});
            if (focus & f_fault) kinds.insert(kinds.end(), {9, 9, 10});
            if (focus & f_cmp) kinds.push_back(11);
            for (size_t k = 0; k < 8 && !kinds.empty() && !obs.empty(); ++k) {
                auto& b = obs[r(obs.size())]; auto y = &types[r(types.size())]; auto& o2 = obs[r(obs.size())];
                const List was = b.y->l;
                int kind = kinds[r(kinds.size())];
                VLOG("operation " << kind << " of an object of " << was.size() << " mixins, and one of " << y->l.size());
                switch (kind) {
                case 0: change(b, y, "a change of type", oc_ok, [&] { b.o->reset_type(*y->t); }); break;
                case 1: { // more operations than the algorithms' small cases
                    bool big = r(2); auto v = ops_for(y->l, 40);
                    change(b, y, "mutate_to with 40 operations", oc_ok, [&] { if (big) many_to(*b.o, *y->t, v, std::make_index_sequence<40>{}); else many_to(*b.o, *y->t, v, std::make_index_sequence<17>{}); });
                    std::set<Mx*> seen;
                    for (size_t i = 0; i < (big ? 40u : 17u); ++i) VEQ(v[i].calls, seen.insert(v[i].m).second && has(y->l, v[i].m) && !has(was, v[i].m), "calls of operation " << i << " of mutate_to");
                    break;
                }
                case 2: { // adds which are not there yet
                    List l; for (auto m : regd) if (!has(was, m)) l.push_back(m);
                    shuffle(l, r); size_t n = r(2) ? 40 : 17; if (l.size() < n) break;
                    l.resize(n); List in = was; in.insert(in.end(), l.begin(), l.end());
                    auto z = made_type(in); if (!z) break;
                    std::vector<Op> v; for (auto m : l) v.push_back({m, 0, 0});
                    change(b, z, "mutate with many operations", oc_ok, [&] { if (n == 40) many(*b.o, v, std::make_index_sequence<40>{}); else many(*b.o, v, std::make_index_sequence<17>{}); });
                    for (size_t i = 0; i < n; ++i) VEQ(v[i].calls, has(z->l, v[i].m), "calls of operation " << i << " of mutate");
                    break;
                }
                case 3: {
                    auto v = ops_for(y->l, 1 + r(300)); std::vector<dnmx_mutate_to_override> c(v.size());
                    for (size_t i = 0; i < v.size(); ++i) c[i] = {r(5) ? &v[i].m->info : nullptr, v[i].m->info.name, r(8) ? op_init : nullptr, r(2) ? op_update : nullptr, uintptr_t(&v[i])};
                    change(b, y, "a mutation to a type in C", oc_ok, [&] { if (dnmx_mutate_to(b.o->to_c_hanlde(), y->t, c.data(), uint32_t(c.size()))) throw 1; });
                    std::vector<std::pair<int, int>> want(v.size());
                    for (auto m : y->l) for (size_t i = 0; i < v.size(); ++i) if (c[i].mixin ? c[i].mixin == &m->info : v[i].m->name == m->name) { if (has(was, m)) want[i].second += !!c[i].update_common; else want[i].first += !!c[i].init_new; break; }
                    for (size_t i = 0; i < v.size(); ++i) { VEQ(v[i].calls, want[i].first, "constructions by override " << i << " of " << v.size()); VEQ(v[i].updates, want[i].second, "updates by override " << i << " of " << v.size()); }
                    break;
                }
                case 4: {
                    size_t n = 1 + r(300); List in = was; std::vector<Op> v(n); std::vector<dnmx_mutate_op> c(n);
                    for (size_t i = 0; i < n; ++i) {
                        auto m = r(3) && !in.empty() ? in[r(in.size())] : regd[r(regd.size())]; v[i].m = m;
                        auto f = std::find(in.begin(), in.end(), m);
                        c[i] = {dnmx_mutate_op_remove, &m->info, {}, nullptr, uintptr_t(&v[i])};
                        if (f == in.end()) { c[i].op_type = dnmx_mutate_op_add; if (r(2)) c[i].init_override = op_init; in.push_back(m); }
                        else { in.erase(f); if (r(2)) { c[i].op_type = dnmx_mutate_op_to_back; in.push_back(m); } }
                    }
                    auto z = made_type(in); if (!z) break;
                    change(b, z, "a mutation in C", oc_ok, [&] { if (dnmx_mutate(b.o->to_c_hanlde(), c.data(), uint32_t(n))) throw 1; });
                    std::vector<int> want(n);
                    for (auto m : z->l) if (!has(was, m)) for (size_t i = 0; i < n; ++i) if (c[i].op_type == dnmx_mutate_op_add && c[i].init_override && v[i].m == m) { ++want[i]; break; }
                    for (size_t i = 0; i < n; ++i) VEQ(v[i].calls, want[i], "constructions by operation " << i << " of " << n);
                    break;
                }
                case 5: {
                    if (&o2 == &b) break;
                    y = o2.y; bool can = true;
                    for (auto m : y->l) if (has(was, m) ? !m->info.copy_asgn : !m->info.copy_init) can = false;
                    int oc = change(b, y, "a copy from another object", can ? oc_ok : oc_object, [&] { b.o->copy_from(*o2.o); });
                    if (oc == oc_ok) for (auto m : y->l) VEQ(m->asgn, has(was, m), "how often mixin " << m->idx << " is assigned by a copy");
                    fine(o2, "after it was copied from");
                    break;
                }
                case 6: case 7: {
                    if (&o2 == &b) break;
                    bool fallback = r(2), mv = kind == 7, can = true;
                    for (auto m : o2.y->l) if (has(was, m) && (mv ? !m->info.move_asgn && !(fallback && m->info.move_init) : !m->info.copy_asgn)) can = false;
                    zero();
                    VOC(outcome([&] { if (mv) b.o->move_matching_from(*o2.o, fallback); else b.o->copy_matching_from(*o2.o); }), can ? oc_ok : oc_object, "assignment of matching mixins");
                    for (auto& m : w.mix) {
                        bool both = can && has(was, m.get()) && has(o2.y->l, m.get());
                        VEQ(m->asgn, both && !mv, "copy assignments of mixin " << m->idx); VEQ(m->masgn, both && mv && m->info.move_asgn, "move assignments of mixin " << m->idx);
                        int re = both && mv && !m->info.move_asgn; VCHECK(m->moved == re && m->gone == re && !m->made, "mixin " << m->idx << " moved by construction");
                    }
                    fine(b, "after matching mixins were assigned"); fine(o2, "after its mixins were assigned");
                    break;
                }
                case 8: {
                    zero(); std::map<Mx*, const void*> at; for (auto m : was) at[m] = b.o->get(m->info);
                    auto n = std::make_unique<object>(std::move(*b.o));
                    VCHECK(b.o->empty() && &b.o->get_type() == &d.get_empty_type(), "an object which was moved out from");
                    if (r(2) && &o2 != &b && o2.o->get_allocator() == n->get_allocator()) { // and over another
                        std::map<Mx*, int> kept; for (auto m : o2.y->l) kept[m] = 1;
                        --count[o2.y->t]; *o2.o = std::move(*n); o2.y = b.y;
                        for (auto& m : w.mix) VEQ(m->gone, kept.count(m.get()) ? 1 : 0, "how often mixin " << m->idx << " is destroyed by a move assignment");
                        for (auto m : was) VCHECK(o2.o->get(m->info) == at[m], "a moved object keeps its mixins where they are");
                        fine(o2, "after a move assignment");
                        obs.erase(obs.begin() + (&b - obs.data()));
                        break;
                    }
                    b.o = std::move(n);
                    for (auto m : was) VCHECK(b.o->get(m->info) == at[m], "a moved object keeps its mixins where they are");
                    for (auto& m : w.mix) VEQ(m->gone + m->made + m->moved, 0, "mixin " << m->idx << " is touched by a move of the object");
                    fine(b, "after a move");
                    break;
                }
                case 9: { // a construction in the middle is refused
                    size_t nw = 0; for (auto m : y->l) nw += !has(was, m);
                    if (!nw) break;
                    fail_in = long(r(nw));
                    change(b, y, "a change of type with a failing construction", oc_object, [&] { b.o->reset_type(*y->t); });
                    VEQ(fail_in, -1, "a construction which did not happen");
                    change(b, y, "the same change again", oc_ok, [&] { b.o->reset_type(*y->t); });
                    break;
                }
                case 10: { // an allocation is refused; copies too
                    w.ores.fail_at = w.ores.count + long(r(3) ? r(y->l.size() / 6 + 2) : r(3));
                    size_t out = w.ores.out.size();
                    int oc = change(b, y, "a change of type with a failing allocation", oc_ok | oc_alloc, [&] { b.o->reset_type(*y->t); });
                    w.ores.fail_at = -1;
                    if (oc != oc_ok) { VEQ(w.ores.out.size(), out, "blocks after a refused change"); change(b, y, "the same change again", oc_ok, [&] { b.o->reset_type(*y->t); }); }
                    zero(); fail_in = long(r(y->l.size() + 1)); bool fails = size_t(fail_in) < y->l.size(); out = live.size();
                    VOC(outcome([&] { object c(b.o->copy()); }), fails ? oc_object : oc_ok, "a copy with a failing construction");
                    fail_in = -1;
                    VEQ(live.size(), out, "instances after a copy"); fine(b, "after a copy of it");
                    break;
                }
                case 11: { // objects of one type
                    auto c = b.o->copy(); ++count[b.y->t];
                    bool cmp = true, eq = true; for (auto m : was) { cmp &= !!m->info.compare; eq &= m->info.compare || m->info.equals; }
                    for (int z = 0; z < 3; ++z) {
                        differs = z && !was.empty() ? was[r(was.size())] : nullptr; differs_by = r(2) ? 3 : INT32_MIN + 7; differs_lhs = differs ? b.o->get(differs->info) : nullptr;
                        if (eq) VEQ(b.o->equals(c), !differs, "objects of " << was.size() << " mixins are equal");
                        if (cmp) { int g = b.o->compare(c), want = !differs ? 0 : differs_by < 0 ? -1 : 1; VEQ((g > 0) - (g < 0), want, "objects of " << was.size() << " mixins compared"); g = c.compare(*b.o); VEQ((g > 0) - (g < 0), -want, "objects of " << was.size() << " mixins compared the other way"); }
                    }
                    differs = nullptr; --count[b.y->t];
                    break;
                }
                }
            }
            shuffle(obs, r);
            for (size_t keep = r(obs.size() + 1); obs.size() > keep; obs.pop_back()) --count[obs.back().y->t];
            if (!obs.empty()) fine(obs[0], "after others are destroyed");
        }
        // ---- collection
        auto exist = [&](const char* when) {
            std::set<const type*> want, got;
            for (auto& y : types) want.insert(y.t);
            domain_traverse tr(d);
            size_t n = 0;
            tr.traverse_types([&](const type& t) { if (&t != &d.get_empty_type()) { got.insert(&t); ++n; } });
            VCHECK(got == want && n == want.size(), "types which exist " << when << ": " << n << ", expected " << want.size());
            tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) {
                VCHECK(&t == &d.get_empty_type() || want.count(&t), "a stored query leads to a type which is gone " << when);
                List in, l; for (auto m : q) { in.push_back(of(m)); VCHECK(in.back()->reg >= 0, "a stored query has an unregistered mixin " << when); }
                VCHECK(w.settle(in, l) && l.size() == t.mixins.size(), "a stored query and its type " << when);
                for (size_t i = 0; i < l.size(); ++i) VCHECK(t.mixins[i] == &l[i]->info, "a stored query leads to a wrong type " << when);
            });
            if (focus & f_trav) {
                n = 0; tr.traverse_mixins([&](const mixin_info& m) { VCHECK(of(&m)->reg >= 0, "a mixin which is not registered"); ++n; }); VEQ(n, size_t(std::count_if(w.mid.begin(), w.mid.end(), [](int i) { return i >= 0; })), "mixins visited");
                n = 0; tr.traverse_features([&](const feature_info&) { ++n; }); VEQ(n, size_t(std::count_if(w.fid.begin(), w.fid.end(), [](int i) { return i >= 0; })), "features visited");
                n = 0; tr.traverse_mutation_rules([&](const mutation_rule_info& i, uint32_t refs) { if (n < w.rules.size()) { VCHECK(&i == &w.rules[n]->info, "rule " << n); VEQ(size_t(refs), w.rules[n]->refs, "references of rule " << n); } ++n; }); VEQ(n, w.rules.size() + w.canonical, "rules visited");
            }
        };
        if (focus & (f_gc | f_trav)) {
            exist("after the requests");
            if (r(2) && !types.empty()) { // a mixin without objects goes
                List cand = regd; for (auto& b : obs) for (auto m : b.y->l) cand.erase(std::remove(cand.begin(), cand.end(), m), cand.end());
                for (auto& x : w.rules) cand.erase(std::remove(cand.begin(), cand.end(), x->m), cand.end());
                for (size_t k = 1 + r(3); k-- && !cand.empty(); ) {
                    auto m = cand[r(cand.size())]; cand.erase(std::find(cand.begin(), cand.end(), m));
                    // stored queries are checked with the mixin unregistered
                    w.unreg(*m); regd.erase(std::find(regd.begin(), regd.end(), m));
                    for (size_t i = 0; i < types.size(); ) if (has(types[i].l, m)) { // keep the others where they are
                        known.erase(types[i].l); count.erase(types[i].t);
                        auto at = &types[i], end = &types.back();
                        if (at != end) { for (auto& b : obs) if (b.y == end) b.y = at; *at = std::move(*end); }
                        types.pop_back();
                    } else ++i;
                    exist("after a mixin is unregistered");
                }
            }
            d.garbage_collect_types();
            for (size_t i = 0; i < types.size(); ) if (!count[types[i].t]) {
                known.erase(types[i].l); count.erase(types[i].t);
                auto at = &types[i], end = &types.back();
                if (at != end) { for (auto& b : obs) if (b.y == end) b.y = at; *at = std::move(*end); }
                types.pop_back();
            } else ++i;
            VEQ(d.num_types(), types.size(), "types after collection");
            exist("after collection");
            for (auto& b : obs) { fine(b, "after collection"); break; }
            if (obs.empty()) for (int k = 0; k < 3; ++k) request(some()); // vector may grow: no object points into it
        }
    }
    VCHECK(bad.empty(), bad);
    VCHECK(live.empty(), live.size() << " mixins are left");
    for (auto& x : w.rules) for (size_t k = 1; k < x->refs; ++k) d.remove_mutation_rule(x->info);
    VEQ(d.num_mutation_rules(), w.rules.size() + w.canonical, "rules which were removed all but once");
    if (focus & f_rules) { auto l = some(); request(l); }
    for (auto& x : w.rules) d.remove_mutation_rule(x->info);
    VEQ(d.num_mutation_rules(), size_t(w.canonical), "rules left");
    if ((focus & f_rules) && !regd.empty()) { w.rules.clear(); known.clear(); auto l = some(); List want; if (w.settle(l, want)) { std::vector<const mixin_info*> q; for (auto m : l) q.push_back(&m->info); auto& t = d.get_type(q); VEQ(t.mixins.size(), want.size(), "mixins of a type without rules"); for (size_t i = 0; i < want.size(); ++i) VCHECK(t.mixins[i] == &want[i]->info, "mixin " << i << " without rules"); } }
    w.d.reset();
    VCHECK(w.dres.err.empty(), w.dres.err); VEQ(w.dres.out.size(), size_t(0), "blocks of the domain left");
    VCHECK(w.ores.err.empty(), w.ores.err); VEQ(w.ores.out.size(), size_t(0), "blocks of objects left");
}

const char* what = "domains with up to 1100 mixins, 400 features, 400 rules, 300 types and 300 objects, extreme bids and priorities, long and equal names: ";
#define PART(prop, focus, text, quick, deep) vp::Reg r_##prop(#prop, vp::Part{"large domains", std::string(what) + text + "; non-trivial: more than 64 of something", [](vp::Src& s) { run(s, focus); }, quick, deep})
PART(C01, f_types, "types, repeated and permuted requests, indices of every mixin", 1200, 60000);
PART(C02, f_feats, "every feature table and what follows each payload", 1200, 60000);
PART(C04, f_reg, "ids, names, gaps which are filled again", 1500, 60000);
PART(C05, f_objs, "objects and mutations, storage, counts of instances", 1000, 40000);
PART(C06, f_objs, "mutations between large types", 1000, 40000);
PART(C07, f_fault, "constructions and allocations fail in the middle of mutations between large types and of copies", 1000, 40000);
PART(C08, f_copy, "copies between large objects, of everything and of what matches", 1000, 40000);
PART(C09, f_copy, "large objects are moved, and their matching mixins", 1000, 40000);
PART(C10, f_cmp, "types and objects are compared", 1500, 60000);
PART(C11, f_rules, "the final lists under many rules", 1000, 40000);
PART(C12, f_gc | (1 << 16), "unregistration and collection among many types and stored queries", 1000, 40000);
PART(C14, f_c, "mutations in C with up to 300 overrides or operations", 1000, 40000);
PART(C15, f_ops, "mutations with 17 and 40 operations", 1000, 40000);
PART(C21, f_trav | f_rules, "traversals", 800, 40000);
}
