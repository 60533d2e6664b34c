// C18: v1 mutation rules against a list model.
#include "common.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <algorithm>

#define MIXINS(X) X(c18_m0) X(c18_m1) X(c18_m2) X(c18_m3) X(c18_m4) X(c18_m5) X(c18_d0) X(c18_d1)
#define X(m) DYNAMIX_V1_DECLARE_MIXIN(m);
MIXINS(X)
#undef X
class c18_m0 {}; class c18_m1 { public: int x = 1; }; class c18_m2 { public: char c[40] = {}; }; class c18_m3 {}; class c18_m4 { public: std::string s = "a text which is not short at all"; }; class c18_m5 { public: c18_m5() = default; c18_m5(const c18_m5&) = delete; c18_m5& operator=(const c18_m5&) = delete; };
class c18_d0 { public: int y = 2; }; class c18_d1 {};
// the order of definition is not the canonical one
DYNAMIX_V1_DEFINE_MIXIN(c18_m4, dynamix::v1compat::none);
DYNAMIX_V1_DEFINE_MIXIN(c18_m0, dynamix::v1compat::mixin_name("k"));
DYNAMIX_V1_DEFINE_MIXIN(c18_m3, dynamix::v1compat::user_data(3));
DYNAMIX_V1_DEFINE_MIXIN(c18_m1, dynamix::v1compat::none);
DYNAMIX_V1_DEFINE_MIXIN(c18_d1, dynamix::v1compat::dependency_mixin());
DYNAMIX_V1_DEFINE_MIXIN(c18_m5, dynamix::v1compat::mixin_name("a"));
DYNAMIX_V1_DEFINE_MIXIN(c18_m2, dynamix::v1compat::dependency_mixin(false));
DYNAMIX_V1_DEFINE_MIXIN(c18_d0, dynamix::v1compat::dependency_mixin(true) & dynamix::v1compat::none);

DYNAMIX_V1_TYPE_CLASS(c18_has_m2_or_m0);
DYNAMIX_V1_DEFINE_TYPE_CLASS(c18_has_m2_or_m0) { return type.has(dynamix::g::get_mixin_info<c18_m2>()) || type.has<c18_m0>(); }
DYNAMIX_V1_TYPE_CLASS(c18_of_two);
DYNAMIX_V1_DEFINE_TYPE_CLASS(c18_of_two) { return type.num_mixins() == 2; }

namespace c18 {
using namespace pt;
namespace v1 = dynamix::v1compat;
constexpr int N = 8, ND = 2; // the last two are dependencies
const mixin_info* inf(int i) {
    static const mixin_info* const t[N] = {
#define X(m) &g::get_mixin_info<m>(),
        MIXINS(X)
#undef X
    };
    return t[i];
}
int idx(const mixin_info* p) { for (int i = 0; i < N; ++i) if (inf(i) == p) return i; return -1; }
template <typename F> decltype(auto) with(int i, F&& f) {
    switch (i) {
    case 0: return f((c18_m0*)0); case 1: return f((c18_m1*)0); case 2: return f((c18_m2*)0); case 3: return f((c18_m3*)0);
    case 4: return f((c18_m4*)0); case 5: return f((c18_m5*)0); case 6: return f((c18_d0*)0); default: return f((c18_d1*)0);
    }
}
using List = std::vector<int>;
std::string str(const List& l) { std::string r; for (int i : l) { if (!r.empty()) r += ' '; r += i < 6 ? "m" + std::to_string(i) : "d" + std::to_string(i - 6); } return "[" + r + "]"; }

enum Kind { one_shot, dep, exclusive, deprecated, mandatory, substitute, custom, n_kinds };
struct Spec { Kind k; int a = 0, b = 0; List l; };
std::string str(const Spec& r) {
    static const char* n[] = {"dependent one-shot", "dependent", "exclusive", "deprecated", "mandatory", "substitute", "custom"};
    return std::string(n[r.k]) + " " + str(List{r.a}) + (r.k == substitute || r.k == custom ? str(List{r.b}) : "") + str(r.l);
}
int alive; // custom rules
struct Custom final : v1::mutation_rule {
    int a, b;
    Custom(int a, int b) : a(a), b(b) { ++alive; }
    ~Custom() { --alive; }
    void apply_to(type_mutation& m) override { if (m.has(*inf(a))) m.add_if_lacking(*inf(b)); else m.remove(*inf(b)); }
};
std::shared_ptr<v1::mutation_rule> make(vp::Src& s, const Spec& r) {
    auto fill = [&](auto& x) { for (int i : r.l) if (s.flip()) x.add(*inf(i)); else with(i, [&](auto* t) { x.template add<std::remove_pointer_t<decltype(t)>>(); }); };
    auto master = [&](auto& x) { with(r.a, [&](auto* t) { x.template set_master<std::remove_pointer_t<decltype(t)>>(); }); };
    switch (r.k) {
    case one_shot: { auto p = std::make_shared<v1::dependent_mixins_oneshot>(); master(*p); fill(*p); return p; }
    case dep: { auto p = std::make_shared<v1::dependent_mixins_dep>(); fill(*p); master(*p); return p; }
    case exclusive: { auto p = std::make_shared<v1::mutually_exclusive_mixins>(); fill(*p); return p; }
    case deprecated: return with(r.a, [&](auto* t) -> std::shared_ptr<v1::mutation_rule> { return std::make_shared<v1::deprecated_mixin<std::remove_pointer_t<decltype(t)>>>(); });
    case mandatory: return with(r.a, [&](auto* t) -> std::shared_ptr<v1::mutation_rule> { return std::make_shared<v1::mandatory_mixin<std::remove_pointer_t<decltype(t)>>>(); });
    case substitute: return with(r.a, [&](auto* t) { return with(r.b, [&](auto* u) -> std::shared_ptr<v1::mutation_rule> { return std::make_shared<v1::substitute_mixin<std::remove_pointer_t<decltype(t)>, std::remove_pointer_t<decltype(u)>>>(); }); });
    default: return std::make_shared<Custom>(r.a, r.b);
    }
}
bool has(const List& l, int i) { return std::find(l.begin(), l.end(), i) != l.end(); }
void rem(List& l, int i) { l.erase(std::remove(l.begin(), l.end(), i), l.end()); }
void put(List& l, int i) { if (!has(l, i)) l.push_back(i); }
// what a rule makes of a list; false: an error
bool model(const Spec& r, List& l) {
    switch (r.k) {
    case one_shot: if (has(l, r.a)) for (int i : r.l) put(l, i); return true;
    case dep: if (has(l, r.a)) for (int i : r.l) { if (i < N - ND) return false; put(l, i); } return true;
    case exclusive: { int last = -1; for (size_t i = 0; i < l.size(); ++i) if (has(r.l, l[i])) last = int(i); List n; for (size_t i = 0; i < l.size(); ++i) if (int(i) == last || !has(r.l, l[i])) n.push_back(l[i]); l = n; return true; }
    case deprecated: rem(l, r.a); return true;
    case mandatory: put(l, r.a); return true;
    case substitute: if (has(l, r.a)) { rem(l, r.a); put(l, r.b); } return true;
    default: if (has(l, r.a)) put(l, r.b); else rem(l, r.b); return true;
    }
}
Spec gen(vp::Src& s) {
    Spec r; r.k = Kind(s.weighted({3, 3, 3, 2, 2, 3, 2}));
    auto normal = [&] { return s.chance(1, 8) ? int(s.index(N)) : int(s.index(N - ND)); };
    r.a = normal(); r.b = normal();
    if (r.k == substitute || r.k == custom) while (r.b == r.a) r.b = (r.b + 1) % N;
    if (r.k == one_shot || r.k == exclusive) for (int n = int(s.draw(r.k == exclusive ? 4 : 3)); n--; ) r.l.push_back(normal());
    if (r.k == dep) for (int n = int(s.draw(3)); n--; ) r.l.push_back(s.chance(1, 15) ? normal() : N - ND + int(s.index(ND)));
    if (r.k != exclusive && r.k <= exclusive && has(r.l, r.a)) rem(r.l, r.a);
    return r;
}
List gen_list(vp::Src& s, bool deps) { List l; for (int n = int(s.draw(5)); n--; ) { int i = int(s.index(deps ? N : N - ND)); if (!has(l, i)) l.push_back(i); } return l; }
List list_of(itlib::span<const mixin_info* const> m) { List l; for (auto p : m) l.push_back(idx(p)); return l; }

// a rule is applied directly
void direct(vp::Src& s) {
    auto r = gen(s); auto p = make(s, r);
    auto l = gen_list(s, true);
    if (r.k == exclusive) for (int n = int(s.draw(3)); n--; ) l.insert(l.begin() + long(s.index(l.size() + 1)), int(s.index(N)));
    type_mutation m(v1::domain::instance());
    for (int round = 0; round < 2; ++round) {
        VLOG(str(r) << " of " << str(l));
        m.mixins.clear(); for (int i : l) m.mixins.push_back(inf(i));
        List want = l; bool ok = model(r, want); if (want != l || !ok) s.interesting();
        auto oc = outcome([&] { if (s.flip()) p->apply_to(m); else { auto& i = p->info(); VCHECK(i.apply && i.user_data, "info of a rule"); VEQ(i.apply(m.to_c_hanlde(), i.user_data), result_success, "result of a rule"); } });
        VOC(oc, ok ? oc_ok : oc_type, "a rule is applied");
        if (!ok) return;
        auto got = list_of(m.mixins);
        auto sg = got, sw = want; std::sort(sg.begin(), sg.end()); std::sort(sw.begin(), sw.end());
        VCHECK(sg == sw, str(r) << " makes " << str(got) << " of " << str(l) << ", expected " << str(want));
        // what was there and stays is in order
        List a, b; for (int i : got) if (has(l, i) && !(r.k == substitute && i == r.b)) a.push_back(i); for (int i : want) if (has(l, i) && !(r.k == substitute && i == r.b)) b.push_back(i);
        VCHECK(a == b, str(r) << " makes " << str(got) << " of " << str(l) << ": other mixins are moved");
        l = got; // and applied to its own result
    }
}

// histories of the registry
struct Obj { std::unique_ptr<v1::object> o; List l; int x = 1; };
enum St { ok, err };
struct Res { St st; List l; bool operator==(const Res& o) const { return st == o.st && l == o.l; } };
bool canon(int a, int b) { return dnmx_mixin_canonical_order(inf(a), inf(b)); }
Res settle(const std::vector<const Spec*>& rules, List l) {
    l.erase(std::remove_if(l.begin(), l.end(), [](int i) { return i >= N - ND; }), l.end());
    List last = l;
    size_t extra = std::min<size_t>(5, rules.size() + 1);
    for (size_t pass = 0; ; ++pass) {
        for (auto r : rules) if (!model(*r, l)) return {err, {}};
        std::sort(l.begin(), l.end(), canon);
        if (l == last) break;
        if (pass == extra) return {err, {}};
        last = l;
    }
    for (size_t i = 1; i < l.size(); ++i) if (l[i] == l[i - 1]) return {err, {}};
    return {ok, l};
}
struct Rule { Spec spec; v1::mutation_rule* raw = nullptr; std::shared_ptr<v1::mutation_rule> p; std::weak_ptr<v1::mutation_rule> w; };

bool class_m1(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->has<c18_m1>(); }

void run(vp::Src& s) {
    auto& dom = v1::domain::instance();
    for (uint32_t i = 0; i < 64; ++i) v1::remove_mutation_rule(i); // what a failed case left
    dom.garbage_collect_types();
    VEQ(dom.num_mutation_rules(), size_t(1), "rules of a fresh v1 domain");
    VEQ(dom.num_types(), size_t(0), "types of a fresh v1 domain");
    alive = 0;
    std::map<uint32_t, std::shared_ptr<Rule>> active; // by id
    std::vector<std::shared_ptr<Rule>> idle; // removed
    uint32_t slots = 0; // ids given so far
    std::vector<Obj> obs;
    v1::type_class tc(class_m1);
    auto distinct = [&] { std::vector<const Rule*> r; for (auto& a : active) if (std::find(r.begin(), r.end(), a.second.get()) == r.end()) r.push_back(a.second.get()); return r; };
    // the outcomes which the order of rules allows (v1 does not tell it)
    auto fits = [&](const List& l, const Res& got) {
        auto rs = distinct();
        std::vector<const Spec*> o; for (auto r : rs) o.push_back(&r->spec);
        std::sort(o.begin(), o.end());
        do { if (settle(o, l) == got) return true; } while (std::next_permutation(o.begin(), o.end()));
        return false;
    };
    auto one = [&](const List& l) { std::vector<const Spec*> o; for (auto r : distinct()) o.push_back(&r->spec); return settle(o, l); };
    auto check_all = [&] {
        VEQ(dom.num_mutation_rules(), distinct().size() + 1, "rules of the domain");
        int n = 0; for (auto r : distinct()) n += r->spec.k == custom; for (auto& r : idle) n += r->p && r->spec.k == custom;
        VEQ(alive, n, "custom rules alive");
        for (auto& o : obs) VCHECK(list_of(o.o->get_type().mixins) == o.l, "an object has " << str(list_of(o.o->get_type().mixins)) << ", expected " << str(o.l));
    };
    auto judge = [&](const char* what, const List& asked, const Res& got) {
        if (got.st == err) VLOG("  fails"); else VLOG("  " << str(got.l));
        if (!active.empty() && (got.st == err || got.l.size() != asked.size())) s.interesting();
        VCHECK(fits(asked, got), what << " " << str(asked) << ": " << (got.st == err ? "fails" : str(got.l)) << ", expected " << (one(asked).st == err ? "to fail" : str(one(asked).l)));
    };
    while (s.more(16)) {
        vp::Src::Op op(s);
        switch (s.weighted({5, 3, 4, 4, 6, 2, 2, 1})) {
        case 0: { // add a rule
            auto ds = distinct();
            std::shared_ptr<Rule> r; int how = int(s.draw(2));
            if (s.chance(1, 4) && (!idle.empty() || !ds.empty())) { // again one which was or is there
                if (!active.empty() && s.flip()) { auto i = active.begin(); std::advance(i, s.index(active.size())); r = i->second; }
                else if (!idle.empty()) { r = idle[s.index(idle.size())]; }
                if (r && !r->p) r->p = r->w.lock();
                if (!r || !r->p) break;
                how = 0;
            }
            bool counted = r && std::any_of(ds.begin(), ds.end(), [&](auto x) { return x == r.get(); });
            if (!counted && ds.size() >= 4) break;
            bool bare = false;
            if (!r) {
                r = std::make_shared<Rule>(); r->spec = gen(s);
                if (r->spec.k == custom && how) { r->raw = new Custom(r->spec.a, r->spec.b); bare = true; } // only the registry holds it
                else { r->p = make(s, r->spec); r->w = r->p; r->raw = r->p.get(); }
            }
            uint32_t id = bare ? v1::add_mutation_rule(r->raw) : v1::add_mutation_rule(r->p);
            VLOG("rule " << id << ": " << str(r->spec));
            VCHECK(!active.count(id), "the id " << id << " is given twice");
            if (active.size() < slots) { VCHECK(id < slots, "freed ids are not used again: " << id << " of " << slots); }
            else VEQ(id, slots, "id of a new rule");
            slots = std::max(slots, id + 1);
            idle.erase(std::remove(idle.begin(), idle.end(), r), idle.end());
            active[id] = r;
            if (how) r->p.reset(); // the registry keeps it
            break;
        }
        case 1: { // remove a rule
            uint32_t id = s.chance(1, 4) ? uint32_t(s.draw(slots + 3)) : s.chance(1, 10) ? uint32_t(s.raw()) : active.empty() ? 0 : [&] { auto i = active.begin(); std::advance(i, s.index(active.size())); return i->first; }();
            auto p = v1::remove_mutation_rule(id);
            VLOG("remove rule " << id);
            auto f = active.find(id);
            if (f == active.end()) { VCHECK(!p, "a rule is removed by the unknown id " << id); break; }
            auto r = f->second;
            VCHECK(p && p.get() == r->raw, "the removed rule is given back");
            if (r->w.expired()) r->w = p;
            VCHECK(p == r->w.lock(), "the removed rule is given back");
            if (active.erase(f); !std::any_of(active.begin(), active.end(), [&](auto& a) { return a.second == r; })) {
                if (s.flip()) { r->p = p; idle.push_back(r); s.interesting(); }
                else { r->p.reset(); p.reset(); VCHECK(r->w.expired(), "a removed rule is kept"); s.interesting(); }
            }
            break;
        }
        case 2: { // a type
            auto l = gen_list(s, true);
            VLOG("type of " << str(l));
            std::vector<const mixin_info*> q; for (int i : l) q.push_back(inf(i));
            const type* t = nullptr;
            auto oc = outcome([&] { if (s.flip()) t = &dom.get_type(q); else { type_mutation m(dom); for (auto i : q) m.add(*i); t = &dom.get_type(std::move(m)); } });
            VCHECK(oc & (oc_ok | oc_type), "a type: " << oc_name(oc));
            judge("type of", l, oc == oc_ok ? Res{ok, list_of(t->mixins)} : Res{err, {}});
            if (oc == oc_ok && obs.size() < 5 && s.flip()) { obs.push_back({std::make_unique<v1::object>(*t), list_of(t->mixins), 1}); }
            break;
        }
        case 3: if (obs.size() < 5) { VLOG("object"); obs.push_back({std::make_unique<v1::object>(), {}, 1}); VCHECK(&obs.back().o->get_domain() == &dom, "domain of a v1 object"); } break;
        case 4: { // mutate
            if (obs.empty()) break;
            auto& o = obs[s.index(obs.size())];
            auto l = o.l;
            auto oc = outcome([&] {
                auto m = v1::mutate(*o.o);
                for (int n = int(s.range(1, 3)); n--; ) {
                    int i = int(s.index(N)); bool there = has(l, i);
                    int k = there ? int(1 + s.draw(2)) : int(s.draw(1)) * 3;
                    if (there && k == 2 && s.flip()) k = 3;
                    with(i, [&](auto* t) {
                        using T = std::remove_pointer_t<decltype(t)>;
                        switch (k) {
                        case 0: VLOG("  add " << str(List{i})); m.template add<T>(); l.push_back(i); break;
                        case 1: VLOG("  remove " << str(List{i})); m.template remove<T>(); rem(l, i); break;
                        case 2: VLOG("  to back " << str(List{i})); m.template to_back<T>(); rem(l, i); l.push_back(i); break;
                        default: VLOG("  add if lacking " << str(List{i})); m.template add_if_lacking<T>(); put(l, i); break;
                        }
                    });
                }
                if (s.flip()) m.apply();
            });
            VLOG("mutate " << str(o.l) << " to " << str(l));
            VCHECK(oc & (oc_ok | oc_type), "mutate: " << oc_name(oc));
            judge("mutate to", l, oc == oc_ok ? Res{ok, list_of(o.o->get_type().mixins)} : Res{err, {}});
            if (oc == oc_ok) {
                bool had = has(o.l, 1);
                o.l = list_of(o.o->get_type().mixins);
                if (auto p = o.o->get<c18_m1>(); p && !had) { VEQ(p->x, 1, "a new mixin"); o.x = p->x = int(s.draw(1000)); }
            }
            break;
        }
        case 5: { // copies keep their type whatever the rules are
            if (obs.empty() || obs.size() > 5) break;
            auto& o = obs[s.index(obs.size())];
            VLOG("copy " << str(o.l));
            VEQ(o.o->copyable(), !has(o.l, 5), "copyable");
            auto l = o.l; auto t = &o.o->get_type();
            std::unique_ptr<v1::object> c;
            auto oc = outcome([&] { c = std::make_unique<v1::object>(o.o->copy()); });
            if (has(o.l, 5)) { VCHECK(oc == oc_object, "copy of a mixin which can not be copied: " << oc_name(oc)); break; }
            VCHECK(oc == oc_ok, "copy: " << oc_name(oc));
            VCHECK(&c->get_type() == t, "type of a copy");
            if (has(l, 1)) VCHECK(c->get<c18_m1>() != o.o->get<c18_m1>() && c->get<c18_m1>()->x == o.o->get<c18_m1>()->x, "a mixin of a copy");
            obs.push_back({std::move(c), l, o.x});
            break;
        }
        case 6: { if (obs.empty()) break; auto k = s.index(obs.size()); VLOG("destroy " << str(obs[k].l)); obs.erase(obs.begin() + long(k)); break; }
        default: VLOG("collect"); dom.garbage_collect_types(); break;
        }
        for (auto& o : obs) {
            VEQ(o.o->is_a(tc), has(o.l, 1), "is_a");
            VEQ(o.o->is_a<c18_has_m2_or_m0>(), has(o.l, 0) || has(o.l, 2), "is_a a class made by the macros");
            VEQ(o.o->get_type().is_of<c18_has_m2_or_m0>(), has(o.l, 0) || has(o.l, 2), "is_of a class made by the macros");
            VEQ(o.o->is_of("c18_of_two"), o.l.size() == 2, "is_of the name of a class made by the macros");
            if (has(o.l, 1)) VEQ(o.o->get<c18_m1>()->x, o.x, "the state of a mixin");
            for (int i = 0; i < N; ++i) with(i, [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; VEQ(o.o->template has<T>(), has(o.l, i), "has"); VEQ(o.o->get_type().template lacks<T>(), !has(o.l, i), "lacks"); VEQ(o.o->get_type().template has<T>(), has(o.l, i), "has of the type"); if (auto p = o.o->template get<T>()) VCHECK(v1::object::of(p) == o.o.get(), "object of a mixin"); });
        }
        check_all();
    }
    while (!active.empty()) { auto p = v1::remove_mutation_rule(active.begin()->first); VCHECK(p, "a rule is removed"); active.erase(active.begin()); }
    idle.clear();
    VEQ(dom.num_mutation_rules(), size_t(1), "rules left");
    VEQ(alive, 0, "custom rules left");
    // without rules nothing is changed
    auto l = gen_list(s, false); std::vector<const mixin_info*> q; for (int i : l) q.push_back(inf(i));
    std::sort(l.begin(), l.end(), canon);
    VCHECK(list_of(dom.get_type(q).mixins) == l, "a type after all rules are removed");
    obs.clear();
    dom.garbage_collect_types();
    VEQ(dom.num_types(), size_t(0), "types left");
}
vp::Reg r1("C18", vp::Part{"rules applied", "each kind of v1 rule, with random mixins, is applied to random lists and to its own result and compared with a list model; non-trivial: the list changes or the rule fails", direct, 200000, 20000000});
vp::Reg r2("C18", vp::Part{"rule histories", "random histories of added, repeated, removed and unknown rules, types, v1 objects, mutations, copies and collections in the v1 domain: final lists are compared with the model settled under some order of the active rules, ids, ownership and counts exactly; non-trivial: a rule is removed for good, fails or changes a request", run, 150000, 5000000});
}
