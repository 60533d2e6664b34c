// C23: modules which come and go while the program runs.
// The plugins next to the program (built from harness/modules) define mixins, rules, type classes and
// domains in the domains of the program; random histories load and unload them between operations of
// objects, compared with a model of the registered things and of every object.
#include "../engine.hpp"
#include "../modules/host.hpp"
#include "../modules/traits.hpp"
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type.hpp>
#include <dlfcn.h>
#include <memory>
#include <climits>
using namespace dynamix;
namespace host {
static std::map<std::string, int> alive;
static std::string alive_err;
void born(const char* n) { ++alive[n]; }
void died(const char* n) { if (--alive[n] < 0) alive_err = std::string("destroyed more often than made: ") + n; }
void describe_host(module_desc& d);
static long blocks, bytes;
struct module_resource final : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { ++blocks; bytes += long(n); return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { --blocks; bytes -= long(n); std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
static module_resource module_mem;
dynamix::allocator module_alloc() { return dynamix::allocator(&module_mem); }
}
namespace {
using host::module_desc;
using host::strings;
enum { HOST, OTHER, OWNF, OWNG, ND };
const char* dom_names[] = {"host", "other", "f's own", "g's own"};
enum Msg { WORK, TELL, TOUCH, EXTRA, OWN };
struct Impl { Msg m; int bid, prio; };
struct Mix {
    const char* name; int dom; bool dep;
    std::vector<Impl> impl;
};
struct Rule { const char* name; const char* primary; const char* dependent; int dom; };
struct Mod {
    const char* name; std::vector<int> deps; // the modules it needs
    std::vector<Mix> mixins; std::vector<Rule> rules;
    const char* type_class; const char* class_of; int class_dom;
};
enum { A1, A2, B, D, E, F, G, NM };
const std::vector<Mix> host_mixins{
    {"core", HOST, false, {{WORK, 0, 0}, {TELL, 0, 0}, {TOUCH, 0, 0}}},
    {"base", HOST, false, {{TELL, 0, 2}}},
    {"orphan", HOST, false, {}},
};
const Rule shared{"shared", "orphan", "core", HOST}; // of several modules
const std::vector<Mod> mods{
    {"a1", {}, {{"pa1", HOST, false, {{WORK, -1, 0}, {TELL, 0, 0}}}, {"pa2", HOST, true, {{TELL, 0, -1}}}}, {{"pa2 attaches_to<0>", "core", "pa2", HOST}}, "with_pa", "pa1", HOST},
    {"a2", {}, {{"pa1", HOST, false, {{WORK, 1, 0}, {TELL, 1, 0}}}, {"pa2", HOST, false, {{TELL, 0, 0}, {EXTRA, 0, 0}}}}, {shared}, "with_pa", "pa2", HOST},
    {"b", {}, {{"pb1", HOST, false, {{TELL, 0, 0}, {TOUCH, 1, 0}}}}, {{"pb1 also_adds<0>", "pb1", "base", HOST}}, "with_pb1", "pb1", HOST},
    {"d", {B}, {{"pd1", HOST, true, {{WORK, 0, 5}, {TELL, 0, 0}}}, {"pd2", HOST, false, {{TELL, 0, 0}}}}, {{"pd1 attaches_to<0>", "pb1", "pd1", HOST}, {"pd2 also_adds<0>", "pd2", "pb1", HOST}, {"pd2 also_adds<1>", "pd2", "core", HOST}, shared}, "with_pd2", "pd2", HOST},
    {"e", {}, {{"pe1", HOST, false, {{TELL, 1, 0}}}, {"pe2", HOST, false, {{TELL, 1, 3}, {EXTRA, 0, 0}}}, {"pe3", OTHER, false, {}}}, {{"pe1 also_adds<0>", "pe1", "pe2", HOST}, {"pe2 rule 0", "pe2", "base", HOST}, {"pe2 rule 1", "pe2", "orphan", HOST}}, "with_pe3", "pe3", OTHER},
    {"f", {}, {{"pf1", OWNF, false, {{OWN, 0, 0}}}, {"pf2", OWNF, false, {}}}, {{"pf1 also_adds<0>", "pf1", "pf2", OWNF}}, "with_pf1", "pf1", OWNF},
    {"g", {}, {{"pf1", OWNG, false, {{OWN, 0, 0}}}, {"pf2", OWNG, false, {}}}, {{"pf1 also_adds<0>", "pf1", "pf2", OWNG}}, "with_pf1", "pf1", OWNG},
};
bool canonical(int dom) { return dom != HOST; }
using names = std::vector<std::string>;
std::string show(const names& v) {
    std::string r = "{";
    for (auto& n : v) { if (r.size() > 1) r += ' '; r += n; }
    return r + "}";
}

struct Loaded {
    int refs = 0;          // by the program
    void* handle = nullptr;
    module_desc desc{};
    void (*own)(const object&, std::string&) = nullptr;
};
struct Obj {
    std::unique_ptr<object> o;
    int dom;
    names m;
    std::map<std::string, const void*> at; // where its mixins are
    int core = 0, pb1 = 0;                 // what touch counts
};

struct Case {
    vp::Src& s;
    Loaded L[NM];
    std::vector<Obj> objs;
    module_desc hostd{};
    std::map<std::pair<int, names>, const type*> types; // which must be there
    int swaps = 0; bool with_objects = false; bool unloaded[NM] = {};
    std::string dir;

    Case(vp::Src& s) : s(s) {
        host::describe_host(hostd);
        char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b);
        dir = std::string(b, size_t(n > 0 ? n : 0));
        dir = dir.substr(0, dir.rfind('/'));
        g::get_domain<host::host_domain>().garbage_collect_types();
        g::get_domain<host::other_domain>().garbage_collect_types();
        host::alive.clear(); host::alive_err.clear(); host::blocks = host::bytes = 0;
    }
    ~Case() {
        objs.clear();
        for (int i = NM - 1; i >= 0; --i) while (L[i].refs) { dlclose(L[i].handle); --L[i].refs; }
    }

    bool present(int m) const { // in memory
        if (L[m].refs) return true;
        for (int i = 0; i < NM; ++i) if (L[i].refs) for (int d : mods[size_t(i)].deps) if (d == m) return true;
        return false;
    }
    domain* dom(int d) {
        if (d == HOST) return &g::get_domain<host::host_domain>();
        if (d == OTHER) return &g::get_domain<host::other_domain>();
        return L[d == OWNF ? F : G].desc.own_dom;
    }
    bool dom_present(int d) { return d == HOST || d == OTHER || present(d == OWNF ? F : G); }
    template <typename Fn> void each_mixin(int d, Fn f) {
        if (d == HOST) for (auto& m : host_mixins) f(m, hostd);
        for (int i = 0; i < NM; ++i) if (present(i)) for (auto& m : mods[size_t(i)].mixins) if (m.dom == d) f(m, L[i].desc);
    }
    const Mix* find(int d, const std::string& n) {
        const Mix* r = nullptr;
        each_mixin(d, [&](const Mix& m, const module_desc&) { if (n == m.name) r = &m; });
        return r;
    }
    // (a module which is only kept by another one has no description of its own if it was never asked)
    const host::mod_mixin* mod_mixin_of(int d, const std::string& n) {
        const host::mod_mixin* r = nullptr;
        each_mixin(d, [&](const Mix& m, const module_desc& desc) {
            if (n != m.name) return;
            for (int i = 0; i < desc.num_mixins; ++i) if (n == desc.mixins[i].name) r = desc.mixins + i;
        });
        return r;
    }

    // what becomes of a request; false: an error
    bool resolve(int d, names q, names& out) {
        q.erase(std::remove_if(q.begin(), q.end(), [&](auto& n) { return find(d, n)->dep; }), q.end());
        std::vector<const Rule*> rules;
        for (int i = 0; i < NM; ++i) if (present(i)) for (auto& r : mods[size_t(i)].rules) if (r.dom == d) rules.push_back(&r);
        std::sort(rules.begin(), rules.end(), [](auto a, auto b) { return std::string(a->name) < b->name; });
        rules.erase(std::unique(rules.begin(), rules.end(), [](auto a, auto b) { return std::string(a->name) == b->name; }), rules.end());
        auto last = q;
        size_t num = rules.size() + canonical(d);
        for (size_t i = 0; ; ++i) {
            for (auto r : rules) {
                if (std::count(q.begin(), q.end(), r->primary) && !std::count(q.begin(), q.end(), r->dependent)) q.push_back(r->dependent);
            }
            if (canonical(d)) std::sort(q.begin(), q.end());
            if (q == last) break;
            if (i == 5 || i == num) return false;
            last = q;
        }
        for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < i; ++j) if (q[i] == q[j]) return false;
        out = q;
        return true;
    }
    struct Call { int bid, prio; size_t idx; std::string name; };
    std::vector<Call> table(const Obj& o, Msg msg) {
        std::vector<Call> t;
        for (size_t i = 0; i < o.m.size(); ++i) for (auto& im : find(o.dom, o.m[i])->impl) if (im.m == msg) t.push_back({im.bid, im.prio, i, o.m[i]});
        std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.idx > b.idx; });
        return t;
    }
    std::string version(const std::string& n) { return n == "pa1" || n == "pa2" ? n + (present(A1) ? " v1" : " v2") : n; }

    // the object has (a resolved) new type
    void became(Obj& o, const names& m) {
        for (auto& n : o.m) if (!std::count(m.begin(), m.end(), n)) {
            o.at.erase(n);
            if (n == "core") o.core = 0;
            if (n == "pb1") o.pb1 = 0;
        }
        o.m = m;
        if (!m.empty()) types[{o.dom, m}] = &o.o->get_type();
    }

    void check_object(size_t k, Obj& o) {
        auto& t = o.o->get_type();
        names got;
        for (auto mi : t.mixins) got.push_back(std::string(mi->name.to_std()));
        VCHECK(got == o.m, "object " << k << " has " << show(got) << ", expected " << show(o.m));
        VCHECK(&o.o->get_domain() == dom(o.dom), "object " << k << " is in another domain");
        if (!o.m.empty()) { auto f = types.find({o.dom, o.m}); VCHECK((f != types.end() && f->second == &t), "object " << k << " is of another type " << show(o.m) << " than before"); }
        for (size_t i = 0; i < o.m.size(); ++i) {
            auto& n = o.m[i];
            auto mm = mod_mixin_of(o.dom, n);
            VCHECK(mm, "harness: no description of " << n);
            VCHECK(t.mixins[i] == mm->info, "object " << k << ": the info of " << n << " is not the one of the module");
            auto p = mm->get(*o.o);
            VCHECK(p && p == o.o->get(std::string_view(n)) && p == o.o->get_at(mixin_index_t(i)), "object " << k << ": " << n << " at " << p << ", by name at " << o.o->get(std::string_view(n)));
            auto& at = o.at[n];
            if (at) { VCHECK(at == p, "object " << k << ": " << n << " moved"); }
            at = p;
        }
        if (o.dom == HOST) {
            // messages
            auto w = table(o, WORK);
            std::string r;
            try { r = host::work(*o.o, 5); } catch (feature_error&) { r = "feature_error"; }
            std::string e = w.empty() ? "feature_error" : w[0].name == "pa1" ? version("pa1") + " 5a" : w[0].name + " 5";
            VEQ(r, e, "object " << k << " " << show(o.m) << ": work");
            auto tt = table(o, TELL);
            strings ts, te;
            bool err = false;
            try { host::tell(*o.o, ts); } catch (feature_error&) { err = true; }
            VCHECK(err == tt.empty(), "object " << k << " " << show(o.m) << ": tell " << (err ? "fails" : "does not fail"));
            size_t top = 0;
            while (top < tt.size() && tt[top].bid == tt[0].bid) ++top;
            for (size_t i = top; i-- > 0;) te.push_back(version(tt[i].name));
            VCHECK(ts == te, "object " << k << " " << show(o.m) << ": tell " << show(ts) << ", expected " << show(te));
            auto xx = table(o, EXTRA);
            VEQ(host::extra(*o.o), (xx.empty() ? std::string("no extra") : xx[0].name + " extra"), "object " << k << " " << show(o.m) << ": extra");
            VEQ(hostd.is_of(*o.o), (std::count(o.m.begin(), o.m.end(), "core") != 0), "object " << k << ": with_core");
            VEQ(o.o->is_of("with_core"), (std::count(o.m.begin(), o.m.end(), "core") != 0), "object " << k << ": with_core by name");
        }
        std::set<std::string> seen;
        for (int i = 0; i < NM; ++i) if (present(i) && mods[size_t(i)].type_class && mods[size_t(i)].class_dom == o.dom) {
            auto& md = mods[size_t(i)];
            seen.insert(md.type_class);
            bool e = std::count(o.m.begin(), o.m.end(), md.class_of) != 0;
            int is = -1;
            try { is = o.o->is_of(md.type_class); } catch (type_error&) {}
            VEQ(is, int(e), "object " << k << ": is of " << md.type_class);
            if (L[i].desc.is_of) VEQ(L[i].desc.is_of(*o.o), e, "object " << k << ": the class of the module " << md.name);
        }
        for (auto& md : mods) if (md.type_class && !seen.count(md.type_class)) {
            bool err = false;
            try { o.o->is_of(md.type_class); } catch (type_error&) { err = true; }
            VCHECK(err, "object " << k << ": the class " << md.type_class << " is not there and was found");
        }
        if (o.dom >= OWNF) {
            std::string r;
            try { L[o.dom == OWNF ? F : G].own(*o.o, r); } catch (feature_error&) { r = "feature_error"; }
            VEQ(r, (std::count(o.m.begin(), o.m.end(), "pf1") ? std::string("pf1 own") : std::string("feature_error")), "object " << k << ": the module's message");
        }
    }

    void check_domain(int d) {
        auto& dm = *dom(d);
        std::map<std::string, const mixin_info*> exp, got;
        each_mixin(d, [&](const Mix& m, const module_desc&) { exp[m.name] = mod_mixin_of(d, m.name)->info; });
        {
            domain_traverse tr(dm);
            tr.traverse_mixins([&](const mixin_info& i) {
                VCHECK(got.emplace(std::string(i.name.to_std()), &i).second, "two mixins of the name " << i.name.to_std());
            });
            VCHECK(got == exp, "the domain " << dom_names[d] << " has " << got.size() << " mixins, expected " << exp.size());
            for (auto& [n, i] : exp) {
                VCHECK(dm.get_mixin_info(std::string_view(n)) == i, n << " by name is another info");
                VCHECK(i->dom == dm.to_c_hanlde() && dm.get_mixin_info(i->id) == i, n << " by id is another info");
            }
            std::map<std::string, uint32_t> rg, re;
            tr.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { rg[std::string(r.name.to_std())] += n; });
            for (int i = 0; i < NM; ++i) if (present(i)) for (auto& r : mods[size_t(i)].rules) if (r.dom == d) ++re[r.name];
            size_t canon = 0;
            for (auto it = rg.begin(); it != rg.end();) {
                if (canonical(d) && !re.count(it->first)) { ++canon; it = rg.erase(it); } else ++it;
            }
            VCHECK(rg == re && canon == size_t(canonical(d)), "the domain " << dom_names[d] << " has " << rg.size() << " rules, expected " << re.size());
            std::set<std::string> tg, te;
            tr.traverse_type_classes([&](const type_class& c) { tg.insert(std::string(c.name.to_std())); });
            if (d == HOST) te.insert("with_core");
            for (int i = 0; i < NM; ++i) if (present(i) && mods[size_t(i)].type_class && mods[size_t(i)].class_dom == d) te.insert(mods[size_t(i)].type_class);
            VCHECK(tg == te, "the domain " << dom_names[d] << " has " << tg.size() << " type classes, expected " << te.size());
            std::map<const type*, names> tys;
            tr.traverse_types([&](const type& t) {
                names n;
                for (auto m : t.mixins) {
                    bool known = false;
                    for (auto& [en, i] : exp) if (i == m) { known = true; n.push_back(en); }
                    VCHECK(known, "a type of the domain " << dom_names[d] << " has a mixin which is not registered");
                }
                tys[&t] = n;
            });
            for (auto& [key, t] : types) if (key.first == d) {
                auto f = tys.find(t);
                VCHECK(f != tys.end(), "the type " << show(key.second) << " is gone");
                VCHECK(f->second == key.second, "the type " << show(key.second) << " is now " << show(f->second));
                VCHECK(&t->dom == &dm, "domain of a type");
            }
            tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) {
                for (auto m : q) {
                    bool known = false;
                    for (auto& e : exp) if (e.second == m) known = true;
                    VCHECK(known, "a stored query of the domain " << dom_names[d] << " has a mixin which is not registered");
                }
                VCHECK(&t == &dm.get_empty_type() || tys.count(&t), "a stored query leads to a type which is gone");
            });
        }
    }

    void check() {
        for (int d = 0; d < ND; ++d) if (dom_present(d)) check_domain(d);
        for (size_t i = 0; i < objs.size(); ++i) check_object(i, objs[i]);
        std::map<std::string, int> e;
        for (auto& o : objs) for (auto& n : o.m) ++e[n];
        for (auto& [n, c] : host::alive) VEQ(c, e[n], "instances of " << n);
        VCHECK(host::alive_err.empty(), host::alive_err);
        if (!present(F) && !present(G)) { VCHECK(host::blocks == 0 && host::bytes == 0, "the domains of unloaded modules still hold " << host::blocks << " blocks of " << host::bytes << " bytes"); }
    }

    void load(int m) {
        if ((m == A1 && present(A2)) || (m == A2 && present(A1))) { VLOG("load " << mods[size_t(m)].name << ": clashes"); return; }
        VLOG("load " << mods[size_t(m)].name << (present(m) ? " again" : ""));
        bool was = present(m);
        auto path = dir + "/C23-" + mods[size_t(m)].name + ".so";
        void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        VCHECK(h, "cannot load " << mods[size_t(m)].name << ": " << dlerror());
        if (L[m].refs) { VCHECK(h == L[m].handle, "harness: another handle"); }
        L[m].handle = h;
        ++L[m].refs;
        describe(m);
        for (int d : mods[size_t(m)].deps) describe(d);
        if (!was) {
            if (!objs.empty()) with_objects = true;
            if (unloaded[m] || (m == A1 && unloaded[A2]) || (m == A2 && unloaded[A1])) ++swaps;
        }
    }
    void describe(int m) {
        auto path = dir + "/C23-" + mods[size_t(m)].name + ".so";
        void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_NOLOAD);
        VCHECK(h, "harness: not loaded " << mods[size_t(m)].name);
        auto f = reinterpret_cast<void (*)(module_desc&)>(dlsym(h, "module_info"));
        VCHECK(f, "harness: no module_info");
        f(L[m].desc);
        L[m].own = reinterpret_cast<void (*)(const object&, std::string&)>(dlsym(h, "module_own"));
        dlclose(h);
    }

    // no object has anything of what goes
    void release(const std::vector<int>& going) {
        for (size_t k = 0; k < objs.size();) {
            auto& o = objs[k];
            if ((o.dom == OWNF && std::count(going.begin(), going.end(), int(F))) || (o.dom == OWNG && std::count(going.begin(), going.end(), int(G)))) {
                VLOG("  destroy object " << k);
                objs.erase(objs.begin() + long(k));
                continue;
            }
            auto mine = [&](const std::string& n) {
                for (int g : going) for (auto& m : mods[size_t(g)].mixins) if (m.dom == o.dom && n == m.name) return true;
                return false;
            };
            if (std::any_of(o.m.begin(), o.m.end(), mine)) {
                switch (s.weighted({3, 2, 1, 2})) {
                case 0: { // take them off
                    names q;
                    for (auto& n : o.m) if (!mine(n)) q.push_back(n);
                    names r;
                    if (resolve(o.dom, q, r) && std::none_of(r.begin(), r.end(), mine)) {
                        VLOG("  object " << k << " becomes " << show(r));
                        type_mutation mut(o.o->get_type());
                        for (auto& n : o.m) if (mine(n)) {
                            if (s.flip()) mut.remove(std::string_view(n)); else mut.remove(*mod_mixin_of(o.dom, n)->info);
                        }
                        o.o->reset_type(dom(o.dom)->get_type(std::move(mut)));
                        became(o, r);
                        break;
                    }
                    [[fallthrough]];
                }
                case 1: VLOG("  clear object " << k); o.o->clear(); became(o, {}); break;
                case 2: VLOG("  destroy object " << k); objs.erase(objs.begin() + long(k)); continue;
                default: { // another type which is there
                    const type* t = nullptr; names tn;
                    for (auto& [key, ty] : types) if (key.first == o.dom && std::none_of(key.second.begin(), key.second.end(), mine) && (!t || s.flip())) { t = ty; tn = key.second; }
                    if (!t) { VLOG("  clear object " << k); o.o->reset_type(); became(o, {}); break; }
                    VLOG("  object " << k << " is reset to " << show(tn));
                    o.o->reset_type(*t);
                    became(o, tn);
                }
                }
            }
            ++k;
        }
    }
    void unload(int m) {
        if (!L[m].refs) return;
        VLOG("unload " << mods[size_t(m)].name);
        bool before[NM];
        for (int i = 0; i < NM; ++i) before[i] = present(i);
        --L[m].refs;
        std::vector<int> going;
        for (int i = 0; i < NM; ++i) if (before[i] && !present(i)) going.push_back(i);
        ++L[m].refs;
        release(going);
        std::set<std::string> gone;
        for (int g : going) for (auto& mx : mods[size_t(g)].mixins) gone.insert(mx.name);
        for (auto it = types.begin(); it != types.end();) {
            bool dead = false;
            for (int g : going) for (auto& mx : mods[size_t(g)].mixins) if (mx.dom == it->first.first && std::count(it->first.second.begin(), it->first.second.end(), mx.name)) dead = true;
            if (dead) it = types.erase(it); else ++it;
        }
        VCHECK(dlclose(L[m].handle) == 0, "dlclose");
        --L[m].refs;
        for (int g : going) {
            auto path = dir + "/C23-" + mods[size_t(g)].name + ".so";
            VCHECK(!dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_NOLOAD), "the module " << mods[size_t(g)].name << " is still in memory");
            L[g].desc = {};
            unloaded[g] = true;
            if (!objs.empty()) with_objects = true;
        }
    }

    void create() {
        std::vector<int> ds{HOST, HOST, HOST, OTHER};
        if (present(F)) ds.push_back(OWNF);
        if (present(G)) ds.push_back(OWNG);
        int d = s.pick(ds);
        VLOG("object " << objs.size() << " in " << dom_names[d]);
        Obj o;
        o.dom = d;
        o.o = std::make_unique<object>(*dom(d));
        objs.push_back(std::move(o));
    }
    std::string some_mixin(int d) {
        names v;
        each_mixin(d, [&](const Mix& m, const module_desc&) { v.push_back(m.name); });
        return v.empty() ? std::string() : s.pick(v);
    }
    void change(Obj& o, size_t k) {
        auto n = some_mixin(o.dom);
        if (n.empty()) return;
        auto mm = mod_mixin_of(o.dom, n);
        bool has = std::count(o.m.begin(), o.m.end(), n) != 0;
        bool rem = has ? s.chance(3, 4) : s.chance(1, 8);
        int how = int(s.index(3));
        names q = o.m;
        if (rem) { auto f = std::find(q.begin(), q.end(), n); if (f != q.end()) q.erase(f); }
        else q.push_back(n);
        names r;
        bool ok = resolve(o.dom, q, r);
        VLOG("object " << k << (rem ? " remove " : " add ") << n << (how == 0 ? " by the module" : how == 1 ? " by name" : " by info") << " -> " << (ok ? show(r) : "an error"));
        bool err = false;
        try {
            if (how == 0) (rem ? mm->remove : mm->add)(*o.o);
            else if (how == 1) { if (rem) mutate(*o.o, dynamix::remove(std::string_view(n))); else mutate(*o.o, dynamix::add(std::string_view(n))); }
            else { if (rem) mutate(*o.o, dynamix::remove(*mm->info)); else mutate(*o.o, dynamix::add(*mm->info)); }
        }
        catch (type_error&) { err = true; }
        VCHECK(err == !ok, "object " << k << " " << show(o.m) << (rem ? " remove " : " add ") << n << (err ? ": an error" : ": no error"));
        if (ok) became(o, r);
    }
    void unknown(Obj& o, size_t k) {
        // the name of a mixin which is not loaded
        std::vector<std::string> v;
        for (auto& m : mods) for (auto& mx : m.mixins) if (!find(o.dom, mx.name)) v.push_back(mx.name);
        if (v.empty()) return;
        auto n = s.pick(v);
        VLOG("object " << k << " add " << n << " which is not there");
        bool err = false;
        try { mutate(*o.o, dynamix::add(std::string_view(n))); } catch (type_error&) { err = true; }
        VCHECK(err, n << " is not loaded and was added");
        VCHECK(!o.o->has(std::string_view(n)) && !o.o->get(std::string_view(n)) && !dom(o.dom)->get_mixin_info(std::string_view(n)), n << " is not loaded and was found");
    }
    void touch(Obj& o, size_t k) {
        if (o.dom != HOST) return;
        auto t = table(o, TOUCH);
        int x = 1 + int(s.index(5)), r = -1;
        try { r = host::touch_msg::call(*o.o, x); } catch (feature_error&) {}
        int e = -1;
        if (!t.empty()) e = t[0].name == "core" ? (o.core += x) : (o.pb1 += 100 * x);
        VLOG("object " << k << " touch " << x << " -> " << r);
        VEQ(r, e, "object " << k << " " << show(o.m) << ": touch");
    }
    void two(Obj& o, size_t k) {
        bool nocopy = std::count(o.m.begin(), o.m.end(), "pe3") != 0;
        switch (s.index(4)) {
        case 0: { // a copy
            if (objs.size() >= 5) return;
            VLOG("copy of object " << k);
            Obj c;
            c.dom = o.dom; c.m = o.m; c.core = o.core; c.pb1 = o.pb1;
            try { c.o = std::make_unique<object>(o.o->copy()); }
            catch (object_error&) { VCHECK(nocopy, "a copy fails"); return; }
            VCHECK(!nocopy, "a copy does not fail");
            objs.push_back(std::move(c));
            break;
        }
        case 1: { // moved
            if (objs.size() >= 5) return;
            VLOG("object " << k << " moves to a new one");
            Obj c;
            c.dom = o.dom; c.m = o.m; c.core = o.core; c.pb1 = o.pb1; c.at = o.at;
            c.o = std::make_unique<object>(std::move(*o.o));
            o.at.clear();
            became(o, {});
            objs.push_back(std::move(c));
            break;
        }
        default: {
            size_t j = s.index(objs.size());
            auto& p = objs[j];
            if (j == k || p.dom != o.dom) return;
            if (s.flip()) {
                VLOG("object " << j << " = moved object " << k);
                *p.o = std::move(*o.o);
                p.m = o.m; p.core = o.core; p.pb1 = o.pb1; p.at = o.at;
                o.at.clear();
                became(o, {});
            }
            else {
                if (nocopy) return;
                VLOG("object " << j << " copies from object " << k);
                p.o->copy_from(*o.o);
                // (what both have keeps its place)
                became(p, o.m);
                bool c = std::count(o.m.begin(), o.m.end(), "core"), b = std::count(o.m.begin(), o.m.end(), "pb1");
                p.core = c ? o.core : 0; p.pb1 = b ? o.pb1 : 0;
            }
        }
        }
    }
    void collect() {
        int d = int(s.index(ND));
        if (!dom_present(d)) d = HOST;
        VLOG("collect types of " << dom_names[d]);
        dom(d)->garbage_collect_types();
        for (auto it = types.begin(); it != types.end();) {
            bool used = it->first.first != d;
            for (auto& o : objs) if (o.dom == it->first.first && o.m == it->first.second) used = true;
            if (!used) it = types.erase(it); else ++it;
        }
    }
    void retype(Obj& o, size_t k) {
        const type* t = nullptr; names tn;
        for (auto& [key, ty] : types) if (key.first == o.dom && (!t || s.flip())) { t = ty; tn = key.second; }
        if (!t) return;
        VLOG("object " << k << " is reset to " << show(tn));
        o.o->reset_type(*t);
        became(o, tn);
    }

    void go() {
        check();
        do {
            vp::Src::Op op(s);
            size_t k = objs.empty() ? 0 : s.index(objs.size());
            switch (s.weighted({10, 8, 5, 12, 3, 5, 2, 2, 2})) {
            case 0: load(int(s.index(NM))); break;
            case 1: unload(int(s.index(NM))); break;
            case 2: if (objs.size() < 4) create(); break;
            case 3: if (!objs.empty()) change(objs[k], k); break;
            case 4: if (!objs.empty()) touch(objs[k], k); break;
            case 5: if (!objs.empty()) two(objs[k], k); break;
            case 6: collect(); break;
            case 7: if (!objs.empty()) retype(objs[k], k); break;
            default: if (!objs.empty()) { if (s.flip()) unknown(objs[k], k); else { VLOG("destroy object " << k); objs.erase(objs.begin() + long(k)); } }
            }
            check();
        } while (s.more(24));
        // everything goes
        while (true) {
            std::vector<int> l;
            for (int i = 0; i < NM; ++i) if (L[i].refs) l.push_back(i);
            if (l.empty()) break;
            unload(s.pick(l));
            check();
        }
        objs.clear();
        check();
        if (swaps && with_objects) s.interesting();
    }
};
void run(vp::Src& s) { Case c(s); c.go(); }
vp::Reg r("C23", {"modules", "random histories which load and unload seven plugins (mixins, rules and type classes in the domains of the program, another version with the same names, a plugin which needs another one, mixins of several files and domains, plugins with a domain and a message of their own) between changes, copies, moves, calls and collections, everything compared with a model after each step; non-trivial: a module comes back after it was unloaded, with objects alive", run, 6000, 400000});
}
