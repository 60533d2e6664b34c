// The stateful machine: random histories of domain and object operations, through the C++ and the C
// interface, every step checked against the model in world.hpp.
#pragma once
#include "world.hpp"
#include <dnmx/domain.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/object.h>
#include <dnmx/mutate.h>
#include <iostream>

namespace w {

enum class Oc : uint32_t { ok = 1, obj_err = 2, type_err = 4, dom_err = 8, feat_err = 16, bad_alloc = 32, fault = 64, c_err = 128, other = 256 };
inline const char* oc_name(Oc o) {
    switch (o) {
    case Oc::ok: return "success"; case Oc::obj_err: return "object_error"; case Oc::type_err: return "type_error"; case Oc::dom_err: return "domain_error";
    case Oc::feat_err: return "feature_error"; case Oc::bad_alloc: return "bad_alloc"; case Oc::fault: return "the user's exception"; case Oc::c_err: return "C error return"; default: return "another exception";
    }
}
constexpr uint32_t OK = 1, OBJ = 2, TYP = 4, DOM = 8, FEAT = 16, BADA = 32, FLT = 64, CERR = 128;
inline std::string oc_names(uint32_t m) { std::string o; for (uint32_t b = 1; b <= 256; b <<= 1) if (m & b) { if (!o.empty()) o += " or "; o += oc_name(Oc(b)); } return o; }

template <typename F>
Oc capture(F&& f, std::string& msg) {
    msg.clear();
    try { return f() ? Oc::ok : Oc::c_err; }
    catch (object_error& e) { msg = e.what(); return Oc::obj_err; }
    catch (type_error& e) { msg = e.what(); return Oc::type_err; }
    catch (domain_error& e) { msg = e.what(); return Oc::dom_err; }
    catch (feature_error& e) { msg = e.what(); return Oc::feat_err; }
    catch (FaultEx& e) { msg = e.what(); return Oc::fault; }
    catch (FaultOdd&) { msg = "odd"; return Oc::fault; }
    catch (std::bad_alloc&) { return Oc::bad_alloc; }
    catch (Failure&) { throw; }
    catch (std::exception& e) { msg = e.what(); return Oc::other; }
    catch (...) { return Oc::other; }
}

// runs f in a destructor while an unrelated exception unwinds the stack
template <typename F>
Oc capture_unwinding(F&& f, std::string& msg) {
    struct X {};
    Oc oc = Oc::other;
    std::optional<Failure> fail;
    {
        struct U {
            F& f; std::string& msg; Oc& oc; std::optional<Failure>& fail;
            ~U() { try { oc = capture(f, msg); } catch (Failure& e) { fail = e; } }
        };
        try { U u{f, msg, oc, fail}; throw X{}; } catch (X&) {}
    }
    if (fail) throw *fail;
    return oc;
}

struct Cfg {
    std::string name;
    // shape
    int min_mixins = 2, max_mixins = 7, max_feats = 3, max_rules = 3, avg_ops = 14, max_objs = 5;
    uint32_t missing_pct = 6;      // chance of each callback to be missing
    bool deps = true, two_domains = false, dup_names = false, odd_names = false, plain_layout = false, default_alloc_dom = false;
    bool clash_feats = true;
    uint32_t canon_pct = 30;
    uint32_t fault_pct = 20;       // operations run under injected faults
    bool dom_faults = true;        // also in type requests, through the domain's allocator
    uint32_t unwind_pct = 8;
    uint32_t c_pct = 15;           // operations through C
    uint32_t deep_pct = 25;        // full verification of the domain after an operation
    bool big_layout = false;       // large sizes and alignments too
    uint32_t odd_pct = 50;         // with odd_names: how many mixins have one
    bool start_registered = true;  // mixins start registered
    // op weights: domain side
    uint32_t w_reg = 2, w_unreg = 2, w_regfeat = 1, w_unregfeat = 1, w_badreg = 1, w_tc = 1, w_rule = 2, w_gettype = 6, w_foreign = 1, w_gc = 1, w_cmptypes = 1, w_traverse = 1;
    // object side
    uint32_t w_create = 5, w_destroy = 2, w_clear = 2, w_reset = 4, w_mutate = 4, w_mutate_to = 4, w_gradual = 2, w_piecewise = 3,
        w_copy = 2, w_copy_from = 2, w_copy_match = 1, w_move_match = 1, w_move_ctor = 2, w_move_asgn = 2, w_seal = 1, w_compare = 2, w_poke = 2;
    std::function<bool(const std::map<std::string, int>&)> nontrivial;
};

using Fn = std::function<void(init_new_args)>;

struct AnyOp {
    using V = std::variant<mutate_op_remove_by_info, mutate_op_remove_by_name, mutate_op_just_add_by_info, mutate_op_just_add_by_name,
        mutate_op_to_back_by_info, mutate_op_to_back_by_name, add_mixin_op_with_func_by_info<Fn>, add_mixin_op_with_func_by_name<Fn>>;
    V v;
    template <typename T, typename... A> explicit AnyOp(std::in_place_type_t<T> t, A&&... a) : v(t, std::forward<A>(a)...) {}
    void apply_to_type_mutation(type_mutation& m) { std::visit([&](auto& o) { o.apply_to_type_mutation(m); }, v); }
    object_mutate_op* to_obj_mutate(object& ob) { return std::visit([&](auto& o) -> object_mutate_op* { return o.to_obj_mutate(ob); }, v); }
};
struct AnyToOp {
    using V = std::variant<object_mutate_op_with_func<Fn>, construct_mixin_op_with_func_by_name<Fn>, add_mixin_op_with_func_by_info<Fn>, mutate_op_remove_by_info, mutate_op_just_add_by_info>;
    V v;
    template <typename T, typename... A> explicit AnyToOp(std::in_place_type_t<T> t, A&&... a) : v(t, std::forward<A>(a)...) {}
    object_mutate_op* to_obj_mutate(object& ob) { return std::visit([&](auto& o) -> object_mutate_op* { return o.to_obj_mutate(ob); }, v); }
};

struct How { Ev kind = Ev::init; std::vector<int> values; const void* src = nullptr; };
struct Expect {
    const type* t = nullptr;
    List list;
    std::map<Spec*, How> how;                  // new mixins; default: init
    std::map<Spec*, std::pair<Ev, int>> upd;   // common mixins touched, with the value after
    std::map<Spec*, const void*> upd_src;
};

struct Machine {
    Src& s;
    const Cfg& c;
    World w;
    std::map<std::string, int> cnt;
    std::map<Dom*, std::vector<std::vector<const mixin_info*>>> dummy;

    Machine(Src& s, const Cfg& c) : s(s), c(c), w(s) {}

    void count(const char* k) { ++cnt[k]; s.label(k); }

    // ---------- setup ----------
    void setup() {
        int nd = 1 + (c.two_domains ? int(s.draw(2)) : 0);
        for (int i = 0; i < nd; ++i) {
            domain_settings st = {};
            st.canonicalize_types = s.chance(c.canon_pct, 100);
            if (c.dup_names) { st.allow_duplicate_mixin_names = s.chance(1, 3); st.allow_duplicate_feature_names = s.chance(1, 3); }
            if (s.flip()) {
                domain_settings_builder b;
                if (st.allow_duplicate_mixin_names) b.allow_duplicate_mixin_names(); else if (s.flip()) b.allow_duplicate_mixin_names().allow_duplicate_mixin_names(false);
                if (st.canonicalize_types) { if (s.flip()) b.canonicalize_types(); else b.canonicalize_types(true); } else if (s.flip()) b.canonicalize_types(false);
                if (st.allow_duplicate_feature_names) b.allow_duplicate_feature_names(); else if (s.flip()) b.allow_duplicate_feature_names(false);
                domain_settings bs = b;
                VCHECK(bs.canonicalize_types == st.canonicalize_types && bs.allow_duplicate_mixin_names == st.allow_duplicate_mixin_names && bs.allow_duplicate_feature_names == st.allow_duplicate_feature_names, "settings by the builder");
                st = bs;
            }
            bool own = !(c.default_alloc_dom && s.chance(1, 6));
            if (!own) w.strict_default = false;
            auto& d = w.add_dom(st, own);
            VLOG("domain D" << d.idx << (st.canonicalize_types ? " canonical" : "") << (st.allow_duplicate_mixin_names ? " dup-mixin-names" : "") << (st.allow_duplicate_feature_names ? " dup-feature-names" : "") << (own ? "" : " default-allocator"));
            int nf = int(s.range(0, c.max_feats));
            for (int k = 0; k < nf; ++k) {
                std::string nm = "feat" + std::to_string(w.feats.size());
                if (c.odd_names && s.chance(1, 6)) nm = s.chance(1, 2) ? std::string("feat0") : std::string();
                else if (c.odd_names && s.chance(1, 6)) nm = std::string("f\0\x80", 3) + std::to_string(w.feats.size());
                bool clashes = c.clash_feats ? s.chance(1, 2) : true;
                auto& f = w.add_feat(d, nm, clashes, s.chance(1, 3));
                VLOG("  F" << f.idx << " name " << q(f.nm) << (clashes ? " clashes allowed" : "") << (f.info.default_payload ? " default" : ""));
            }
            int nm = int(s.range(c.min_mixins, c.max_mixins));
            if (s.chance(1, 80)) nm += int(s.draw(40)); // now and then many
            for (int k = 0; k < nm; ++k) {
                auto& m = w.gen_spec(d, c.missing_pct, c.deps, c.plain_layout, c.big_layout);
                int style = 0;
                if (c.odd_names && s.chance(c.odd_pct, 100)) style = 1 + int(s.weighted({2, 2, 1, 2}));
                w.name_spec(m, style);
                if (c.odd_names && k > 0 && s.chance(1, 8)) {
                    // a name already there, or none
                    auto& prev = *w.specs[w.specs.size() - 2];
                    if (s.chance(1, 4)) w.set_name(m, {});
                    else { m.store = std::string(prev.nm); w.set_name(m, m.store); }
                    VLOG("  M" << m.idx << " gets the name " << q(m.nm));
                }
                for (auto& f : w.feats) {
                    if (f->home != &d || !s.chance(2, 5)) continue;
                    int32_t bid = s.oneof({0, 0, 1, -1, 2, INT32_MIN, INT32_MAX}), prio = s.oneof({0, 0, 1, -1, 3, INT32_MAX, INT32_MIN});
                    w.give(m, *f, bid, prio);
                    if (s.chance(1, 12)) m.ffm.back().payload = nullptr; // a tag
                    count("has features");
                    VLOG("    M" << m.idx << " has F" << f->idx << " bid " << bid << " priority " << prio);
                }
            }
            int nr = int(s.range(0, c.max_rules));
            std::vector<Spec*> ms = specs_of(d);
            if (ms.empty()) nr = 0;
            for (int k = 0; k < nr; ++k) {
                static const std::vector<uint32_t> wt = {6, 4, 4, 3, 3, 2, 1, 1, 1, 2, 1, 1, 1};
                int kind = int(s.weighted(wt));
                // prefer a canonical domain not to be fed with reordering that can not settle... but sometimes do
                if (st.canonicalize_types && (kind == World::r_to_back || kind == World::r_rev) && !s.chance(1, 4)) kind = World::r_add;
                auto& a = *s.pick(ms); auto& b = *s.pick(ms);
                auto& r = w.add_rule_info(kind, &a, &b, s.oneof({0, 0, 0, 1, -1, 7, INT32_MAX, INT32_MIN}), {});
                r.store = (s.chance(1, 3) ? "a rule " : "rule ") + std::to_string(r.idx);
                if (s.chance(1, 3)) { // prefixes of one buffer
                    if (w.names_buf.empty()) w.names_buf = std::string(64, 'p');
                    r.nm = std::string_view(w.names_buf).substr(0, size_t(r.idx + 1));
                }
                else r.nm = r.store;
                r.info.name = dnmx_sv::from_std(r.nm);
                rule_home[&r] = &d;
                VLOG("  R" << r.idx << " name " << q(r.nm) << " prio " << r.info.order_priority << ": " << World::rule_name(kind) << " a=" << a << " b=" << b);
            }
        }
        int nres = int(s.range(0, 2));
        for (int i = 0; i < nres; ++i) w.add_res();
        if (c.start_registered) {
            for (auto& m : w.specs) if (!s.chance(1, 10)) do_reg(*m->home, *m, false);
        }
    }
    std::map<Rule*, Dom*> rule_home;

    std::vector<Spec*> specs_of(Dom& d) { std::vector<Spec*> v; for (auto& m : w.specs) if (m->home == &d) v.push_back(m.get()); return v; }
    // the default resource can not be replaced by a tracked one in the compatibility layer
    allocator alc(Res* r) { if (r == w.default_res && !w.default_tracked) return allocator(); return allocator(r); }
    bool use_c() { bool r = c.c_pct && s.chance(c.c_pct, 100); if (r) count("through C"); return r; }
    bool uniq_name(Spec& m) { for (auto& x : w.specs) if (x.get() != &m && x->home == m.home && x->nm == m.nm) return false; return !m.nm.empty(); }
    bool feat_uniq(Feat& m) { for (auto& x : w.feats) if (x.get() != &m && x->home == m.home && x->nm == m.nm) return false; return true; }

    // ---------- running one operation ----------
    std::string msg;
    template <typename F, typename Bad>
    Oc exec(const char* what, uint32_t allowed, Dom* d, const object* hint, bool cc, bool faults_ok, F&& f, Bad&& on_fail) {
        s.sync();
        bool unwinding = s.chance(c.unwind_pct, 100);
        int fm = faults_ok && s.chance(c.fault_pct, 100) ? 1 + int(s.draw(3)) : 0;
        if (unwinding) { count("op during stack unwinding"); VLOG("  (during stack unwinding)"); }
        if (fm) VLOG("  (under faults of kind " << fm << ")");
        auto once = [&] {
            w.events.clear();
            w.owner_hint = hint;
            Oc oc = unwinding ? capture_unwinding(f, msg) : capture(f, msg);
            w.owner_hint = nullptr;
            s.sync();
            return oc;
        };
        if (fm) {
            for (long k = 0; k < 60; ++k) {
                w.faults.arm(k, fm >= 2, fm == 3);
                Oc oc = once();
                bool hit = w.faults.hit;
                std::string where = w.faults.where;
                w.faults.off();
                if (!hit) return settle(what, allowed, d, cc, oc, on_fail);
                count("fault injected");
                uint32_t want = where == "allocation" ? BADA : (where == "functor" || fm >= 2) ? FLT : OBJ;
                if (cc) want = CERR;
                VCHECK(uint32_t(oc) & want, what << (unwinding ? " during stack unwinding" : "") << ", fault " << k << " (" << where << "): " << oc_name(oc) << " " << msg << ", expected " << oc_names(want));
                on_fail(true);
                s.sync();
            }
        }
        Oc oc = once();
        return settle(what, allowed, d, cc, oc, on_fail);
    }
    template <typename Bad>
    Oc settle(const char* what, uint32_t allowed, Dom* d, bool cc, Oc oc, Bad& on_fail) {
        if (cc && (allowed & ~OK)) allowed |= CERR, allowed &= (OK | CERR);
        VCHECK(uint32_t(oc) & allowed, what << ": " << oc_name(oc) << " " << msg << ", expected " << oc_names(allowed));
        if (oc != Oc::ok) {
            count("refused operation");
            if (d && !cc && (oc == Oc::obj_err || oc == Oc::type_err || oc == Oc::dom_err || oc == Oc::feat_err))
                VCHECK(msg.find(d->name) != std::string::npos, what << ": the error text \"" << msg << "\" does not name the domain " << d->name);
            on_fail(false);
            s.sync();
        }
        return oc;
    }

    // ---------- domain operations ----------
    // what registering must do
    bool model_reg(Dom& d, Spec& m) {
        const bool uf = !d.settings.allow_duplicate_feature_names, um = !d.settings.allow_duplicate_mixin_names;
        if (m.reg && m.reg != &d) return false;
        for (auto f : m.feats) {
            if (f->registered) continue;
            if (!model_reg_feat(d, *f, uf)) return false;
        }
        if (m.reg) return false;
        if (um) {
            if (m.nm.empty()) return false;
            if (d.mixin_named(m.nm)) return false;
        }
        Dom::put(d.mixins, Dom::least_free(d.mixins), &m);
        m.reg = &d;
        return true;
    }
    bool model_reg_feat(Dom& d, Feat& f, bool uf) {
        if (f.registered) return false;
        if (uf) {
            if (f.nm.empty()) return false;
            for (auto x : d.feats) if (x && x->nm == f.nm) return false;
        }
        Dom::put(d.feats, Dom::least_free(d.feats), &f);
        f.registered = true;
        return true;
    }
    void do_reg(Dom& d, Spec& m, bool checked = true) {
        bool cc = use_c();
        bool ok = model_reg(d, m);
        VLOG("register " << m << " in D" << d.idx << (cc ? " (C)" : "") << (ok ? "" : " : to be refused"));
        exec("register mixin", ok ? OK : DOM, &d, nullptr, cc, false, [&] {
            if (cc) return dnmx_register_mixin(d.d->to_c_hanlde(), &m.info) == dnmx_result_success;
            d.d->register_mixin(m.info); return true;
        }, [](bool) {});
        count(ok ? "mixin registered" : "mixin registration refused");
        if (checked) { if (m.reg == &d) VEQ(d.d->get_mixin_info(m.info.id), &m.info, "lookup of a registered mixin"); }
    }
    Dom& pick_dom() { return *w.doms[s.index(w.doms.size())]; }
    Spec& pick_spec(Dom& d) { auto v = specs_of(d); return *s.pick(v); }
    Spec* pick_reg(Dom& d) { std::vector<Spec*> v; for (auto m : d.mixins) if (m) v.push_back(m); return v.empty() ? nullptr : s.pick(v); }

    void op_reg() {
        auto& d = pick_dom();
        std::vector<Spec*> v; for (auto m : specs_of(d)) if (!m->reg) v.push_back(m);
        if (v.empty()) return;
        do_reg(d, *s.pick(v));
    }
    void op_badreg() {
        auto& d = pick_dom();
        auto& d2 = pick_dom();
        // registered (here or elsewhere), never something that could succeed in a foreign domain
        std::vector<Spec*> v; for (auto m : specs_of(d2)) if (m->reg) v.push_back(m);
        switch (s.draw(3)) {
        case 0: if (!v.empty()) { if (&d != &d2) count("foreign registration tried"); do_reg(d, *s.pick(v)); } break;
        case 1: { // unregister what is not ours
            std::vector<Spec*> u; for (auto& m : w.specs) if (m->reg != &d) u.push_back(m.get());
            if (u.empty()) break;
            auto& m = *s.pick(u);
            bool cc = use_c();
            VLOG("unregister the foreign " << m << " in D" << d.idx << (cc ? " (C)" : ""));
            auto q0 = queries(d);
            exec("unregister foreign mixin", cc ? OK : DOM, &d, nullptr, cc, false, [&] {
                if (cc) dnmx_unregister_mixin(d.d->to_c_hanlde(), &m.info); else d.d->unregister_mixin(m.info);
                return true;
            }, [](bool) {});
            VCHECK(queries(d) == q0, "unregistering a foreign mixin changed the stored queries");
            if (m.reg) count("unregistering another domain's mixin refused");
            break;
        }
        case 2: {
            std::vector<Feat*> u; for (auto& f : w.feats) if (!(f->home == &d && f->registered)) u.push_back(f.get());
            if (u.empty()) break;
            auto& f = *s.pick(u);
            bool cc = use_c();
            VLOG("unregister the foreign F" << f.idx << " in D" << d.idx << (cc ? " (C)" : ""));
            exec("unregister foreign feature", cc ? OK : DOM, &d, nullptr, cc, false, [&] {
                if (cc) dnmx_unregister_feature(d.d->to_c_hanlde(), &f.info); else d.d->unregister_feature(f.info);
                return true;
            }, [](bool) {});
            break;
        }
        }
    }
    using Q = std::map<std::vector<const mixin_info*>, const type*>;
    Q queries(Dom& d) {
        Q r; domain_traverse t(*d.d);
        t.traverse_type_queries([&](itlib::span<const mixin_info* const> k, const type& ty) { r[std::vector<const mixin_info*>(k.begin(), k.end())] = &ty; });
        return r;
    }
    void op_unreg() {
        auto& d = pick_dom();
        auto m = pick_reg(d);
        if (!m) return;
        for (auto& o : w.objs) if (o->find(m) >= 0) { // objects first
            if (!s.chance(1, 2)) return;
            break;
        }
        for (size_t i = w.objs.size(); i-- > 0; ) if (w.objs[i]->find(m) >= 0) destroy(*w.objs[i]);
        bool cc = use_c();
        VLOG("unregister " << *m << " in D" << d.idx << (cc ? " (C)" : ""));
        auto q0 = queries(d);
        uint32_t oid = m->info.id.i;
        exec("unregister mixin", OK, &d, nullptr, cc, false, [&] {
            if (cc) dnmx_unregister_mixin(d.d->to_c_hanlde(), &m->info); else d.d->unregister_mixin(m->info);
            return true;
        }, [](bool) {});
        d.mixins[oid] = nullptr; m->reg = nullptr;
        Q want;
        for (auto& x : q0) {
            bool dead = false;
            for (auto i : x.first) if (i == &m->info) dead = true;
            for (auto& t : d.types) if (t.second == x.second && World::lhas(t.first, m)) dead = true;
            if (!dead) want.insert(x);
        }
        size_t dropped = 0;
        for (auto i = d.types.begin(); i != d.types.end(); ) { if (World::lhas(i->first, m)) { i = d.types.erase(i); ++dropped; } else ++i; }
        if (dropped) count("types dropped by unregistration");
        VCHECK(queries(d) == want, "stored queries after unregistering " << *m << ": " << d.d->num_type_queries() << ", expected " << want.size());
        count("mixin unregistered");
        w.verify_dom(d, false);
    }
    void op_regfeat() {
        auto& d = pick_dom();
        std::vector<Feat*> v; for (auto& f : w.feats) if (f->home == &d) v.push_back(f.get());
        if (v.empty()) return;
        auto& f = *s.pick(v);
        bool ok = model_reg_feat(d, f, !d.settings.allow_duplicate_feature_names);
        bool cc = use_c();
        VLOG("register F" << f.idx << " in D" << d.idx << (cc ? " (C)" : "") << (ok ? "" : " : to be refused"));
        exec("register feature", ok ? OK : DOM, &d, nullptr, cc, false, [&] {
            if (cc) return dnmx_register_feature(d.d->to_c_hanlde(), &f.info) == dnmx_result_success;
            d.d->register_feature(f.info); return true;
        }, [](bool) {});
        count(ok ? "feature registered" : "feature registration refused");
    }
    void op_unregfeat() {
        auto& d = pick_dom();
        std::vector<Feat*> v;
        for (auto f : d.feats) {
            if (!f) continue;
            bool used = false;
            for (auto m : d.mixins) if (m && std::find(m->feats.begin(), m->feats.end(), f) != m->feats.end()) used = true;
            if (!used) v.push_back(f);
        }
        if (v.empty()) return;
        auto& f = *s.pick(v);
        VLOG("unregister F" << f.idx);
        bool cc = use_c();
        uint32_t oid = f.info.id.i;
        exec("unregister feature", OK, &d, nullptr, cc, false, [&] { if (cc) dnmx_unregister_feature(d.d->to_c_hanlde(), &f.info); else d.d->unregister_feature(f.info); return true; }, [](bool) {});
        d.feats[oid] = nullptr; f.registered = false;
        count("feature unregistered");
    }

    // type classes
    template <int K> static bool tc_fn(dnmx_type_handle ht) noexcept { return tc_model<K>(*type::from_c_handle(ht)); }
    template <int K> static bool tc_model(const type& t) {
        switch (K) {
        case 0: return t.num_mixins() >= 2;
        case 1: return t.num_mixins() % 2 == 0;
        case 2: return t.copyable();
        case 3: return t.comparable();
        default: { uint32_t n = 0; for (auto m : t.mixins) n += m->size; return n % 3 == 0; }
        }
    }
    static bool tc_eval(int k, const type& t) { switch (k) { case 0: return tc_model<0>(t); case 1: return tc_model<1>(t); case 2: return tc_model<2>(t); case 3: return tc_model<3>(t); default: return tc_model<4>(t); } }
    void op_tc() {
        auto& d = pick_dom();
        if (w.tcs.size() < 5 && s.chance(1, 2)) {
            auto t = std::make_unique<TC>();
            t->idx = int(w.tcs.size()); t->kind = int(s.draw(5));
            t->store = s.chance(1, 5) ? (s.flip() ? "class0" : "") : "class" + std::to_string(t->idx);
            t->nm = t->store;
            t->info.name = dnmx_sv::from_std(t->nm);
            static const dnmx_type_class_match_func fns[] = {tc_fn<0>, tc_fn<1>, tc_fn<2>, tc_fn<3>, tc_fn<4>};
            t->info.matches = s.chance(1, 10) ? nullptr : fns[t->kind];
            w.tcs.push_back(std::move(t));
        }
        if (w.tcs.empty()) return;
        auto& t = *w.tcs[s.index(w.tcs.size())];
        auto reg = std::find(d.tcs.begin(), d.tcs.end(), &t);
        bool is_reg = reg != d.tcs.end();
        bool cc = use_c();
        bool other_dom = false;
        for (auto& x : w.doms) if (x.get() != &d && std::find(x->tcs.begin(), x->tcs.end(), &t) != x->tcs.end()) other_dom = true;
        (void)other_dom;
        if (s.chance(1, 3)) {
            VLOG("unregister type class " << t.idx << " in D" << d.idx << (cc ? " (C)" : ""));
            exec("unregister type class", OK, &d, nullptr, cc, false, [&] { if (cc) dnmx_unregister_type_class(d.d->to_c_hanlde(), &t.info); else d.d->unregister_type_class(t.info); return true; }, [](bool) {});
            if (is_reg) d.tcs.erase(reg);
            count(is_reg ? "type class unregistered" : "unknown type class unregistered");
        }
        else {
            bool ok = !t.nm.empty() && t.info.matches;
            for (auto x : d.tcs) if (x->nm == t.nm) ok = false;
            VLOG("register type class " << t.idx << " name " << q(t.nm) << " in D" << d.idx << (cc ? " (C)" : "") << (ok ? "" : " : to be refused"));
            exec("register type class", ok ? OK : DOM, &d, nullptr, cc, false, [&] {
                if (cc) return dnmx_register_type_class(d.d->to_c_hanlde(), &t.info) == dnmx_result_success;
                d.d->register_type_class(t.info); return true;
            }, [](bool) {});
            if (ok) d.tcs.push_back(&t);
            count(ok ? "type class registered" : "type class registration refused");
        }
        // membership
        auto check = [&](const type& ty) {
            for (auto& x : w.tcs) {
                if (x->info.matches) {
                    VEQ(ty.is_of(x->info), tc_eval(x->kind, ty), "is_of(type class " << x->idx << ")");
                    VEQ(dnmx_type_is_of(&ty, &x->info), tc_eval(x->kind, ty), "C is_of(type class " << x->idx << ")");
                }
                TC* r = nullptr;
                for (auto y : d.tcs) if (y->nm == x->nm) r = y;
                bool res = false;
                Oc oc = capture([&] { res = ty.is_of(x->nm); return true; }, msg);
                VCHECK(oc == (r ? Oc::ok : Oc::type_err), "is_of(name " << q(x->nm) << ") gives " << oc_name(oc));
                if (r) VEQ(res, tc_eval(r->kind, ty), "is_of(name " << q(x->nm) << ")");
                VEQ(dnmx_type_is_of_name(&ty, dnmx_sv::from_std(x->nm)), r && tc_eval(r->kind, ty), "C is_of_name(" << q(x->nm) << ")");
            }
        };
        check(d.d->get_empty_type());
        for (auto& x : d.types) check(*x.second);
        for (auto& o : w.objs) if (o->dom == &d) for (auto& x : w.tcs) {
            if (x->info.matches) VEQ(o->o->is_of(x->info), tc_eval(x->kind, *o->t), "object is_of");
            if (std::find(d.tcs.begin(), d.tcs.end(), x.get()) != d.tcs.end()) VEQ(o->o->is_of(x->nm), tc_eval(x->kind, *o->t), "object is_of(name)");
        }
        w.verify_registry(d);
    }
    void op_rule() {
        auto& d = pick_dom();
        if (s.chance(1, 12)) {
            mutation_rule_info bad = {};
            bad.name = dnmx_make_sv_lit("rule without function");
            bool cc = use_c();
            VLOG("add a rule without a function" << (cc ? " (C)" : ""));
            auto q0 = queries(d);
            exec("add rule without function", DOM, &d, nullptr, cc, false, [&] {
                if (cc) return dnmx_add_mutation_rule(d.d->to_c_hanlde(), &bad) == dnmx_result_success;
                d.d->add_mutation_rule(bad); return true;
            }, [](bool) {});
            VEQ(d.d->num_mutation_rules(), d.n_rules(), "rules after a refused one");
            return;
        }
        std::vector<Rule*> v; for (auto& r : w.rules) if (rule_home[r.get()] == &d) v.push_back(r.get());
        if (v.empty()) return;
        auto& r = *s.pick(v);
        auto it = d.rules.find(&r);
        bool cc = use_c();
        if (s.chance(it == d.rules.end() ? 1 : 5, 10)) {
            VLOG("remove R" << r.idx << (cc ? " (C)" : "") << (it == d.rules.end() ? " (not added)" : ""));
            exec("remove rule", OK, &d, nullptr, cc, false, [&] { if (cc) dnmx_remove_mutation_rule(d.d->to_c_hanlde(), &r.info); else d.d->remove_mutation_rule(r.info); return true; }, [](bool) {});
            if (it != d.rules.end() && --it->second == 0) { d.rules.erase(it); count("rule removed for good"); }
            count("rule removed");
        }
        else {
            VLOG("add R" << r.idx << (cc ? " (C)" : ""));
            exec("add rule", OK, &d, nullptr, cc, false, [&] {
                if (cc) return dnmx_add_mutation_rule(d.d->to_c_hanlde(), &r.info) == dnmx_result_success;
                d.d->add_mutation_rule(r.info); return true;
            }, [](bool) {});
            if (++d.rules[&r] > 1) count("rule added again");
            count("rule added");
        }
        VEQ(d.d->num_mutation_rules(), d.n_rules(), "number of rules");
        w.verify_dom(d, false);
    }

    // random lists of mixins
    List gen_list(Dom& d, bool valid_bias = true) {
        List l;
        auto v = specs_of(d);
        if (!d.types.empty() && s.chance(1, 3)) { // from an existing type, edited
            auto it = d.types.begin(); std::advance(it, long(s.index(d.types.size())));
            l = it->first;
            if (s.flip()) return l;
        }
        int n = int(s.weighted({3, 4, 4, 3, 3, 2, 1, 1}));
        for (int i = 0; i < n; ++i) {
            auto m = s.pick(v);
            if (valid_bias && (World::lhas(l, m) || m->reg != &d) && !s.chance(1, 12)) continue;
            l.push_back(m);
        }
        if (w.doms.size() > 1 && s.chance(1, 12)) { // a mixin of the other domain
            for (auto& o : w.doms) if (o.get() != &d) { auto u = specs_of(*o); l.push_back(s.pick(u)); }
        }
        return l;
    }
    // request a type in one of the possible ways and check the answer; null: refused
    const type* request(Dom& d, const List& l, bool* refused = nullptr) {
        bool cc = use_c();
        auto r = w.resolve(d, l);
        int way = int(s.draw(3));
        bool foreign = false;
        for (auto m : l) if (m->home != &d) foreign = true;
        if (foreign) count("request with a foreign mixin");
        std::vector<const mixin_info*> infos; for (auto m : l) infos.push_back(&m->info);
        VLOG("get type " << l << " of D" << d.idx << " way " << way << (cc ? " (C)" : "") << " -> " << (r.st == Resolved::ok ? str(r.list) : std::string("to be refused")));
        const type* t = nullptr;
        auto known = d.types.find(r.list);
        uint32_t allowed = r.st == Resolved::ok ? OK : r.st == Resolved::rule_throw ? FLT : r.st == Resolved::invalid ? (TYP | DOM) : TYP;
        auto q0 = queries(d);
        // the domain's own allocator may fail here
        struct FaultyDom { Res* r; FaultyDom(Res* r) : r(r) { if (r) r->faulty = true; } ~FaultyDom() { if (r) r->faulty = false; } } faulty_dom(d.res.get());
        Oc oc = exec("get_type", allowed, &d, nullptr, cc, d.res && c.dom_faults, [&] {
            if (way == 0) {
                if (cc) { t = type::from_c_handle(dnmx_get_type_from_infos(d.d->to_c_hanlde(), infos.data(), uint32_t(infos.size()))); return t != nullptr; }
                t = &d.d->get_type(itlib::span<const mixin_info* const>(infos.data(), infos.size()));
                return true;
            }
            if (cc) {
                auto hm = dnmx_create_type_mutation_empty(d.d->to_c_hanlde());
                bool full = true;
                if (way == 1) for (auto m : infos) full = full && dnmx_type_mutation_add(hm, m);
                if (way == 2) full = dnmx_type_mutation_set_mixins(hm, infos.data(), uint32_t(infos.size()));
                if (!full) { dnmx_destroy_unused_type_mutation(hm); VCHECK(w.faults.hit, "a C function adding mixins to a mutation fails"); return false; }
                t = type::from_c_handle(dnmx_get_type(d.d->to_c_hanlde(), &hm));
                VCHECK(!hm, "dnmx_get_type does not consume its mutation");
                return t != nullptr;
            }
            if (way == 2 && !d.types.empty()) { // from another type
                auto base = d.types.begin()->second;
                type_mutation mut(*base);
                mut.mixins.clear();
                for (auto m : infos) mut.add(*m);
                t = &d.d->get_type(std::move(mut));
                return true;
            }
            type_mutation mut(*d.d);
            for (auto m : infos) mut.add(*m);
            t = &d.d->get_type(std::move(mut));
            return true;
        }, [&](bool fault) {
            if (!fault) return;
            count("type request with a failing allocation");
            // the type may exist by now, but nothing is stored that was not
            const size_t n = d.d->num_types();
            VCHECK(n == d.types.size() || (n == d.types.size() + 1 && r.st == Resolved::ok && known == d.types.end()), n << " types after a failed request, before it " << d.types.size());
            VCHECK(queries(d) == q0, "a failed request changed the stored queries");
        });
        if (refused) *refused = oc != Oc::ok;
        if (oc != Oc::ok) {
            count(r.st == Resolved::invalid ? "invalid list refused" : "failing or cyclic rules");
            VEQ(d.d->num_types(), d.types.size(), "types after a refused request");
            VCHECK(queries(d) == q0, "a refused request changed the stored queries");
            return nullptr;
        }
        if (r.changed) count("request changed by rules");
        adopt(d, r.list, t, known != d.types.end() ? known->second : nullptr);
        return t;
    }
    void adopt(Dom& d, const List& l, const type* t, const type* known) {
        VCHECK(t != nullptr, "null type");
        if (l.empty()) { VCHECK(t == &d.d->get_empty_type(), "the empty list does not give the domain's empty type"); return; }
        if (known) { VCHECK(t == known, "a second type for the list " << l); count("known type requested"); }
        else {
            for (auto& x : d.types) VCHECK(x.second != t, "the type of " << x.first << " is returned for " << l);
            VCHECK(t != &d.d->get_empty_type(), "the empty type is returned for " << l);
            d.types[l] = t;
            count("type created");
            if (l.size() >= 3) count("type of 3 or more mixins created");
            w.verify_type(*t, l, d);
        }
        VEQ(d.d->num_types(), d.types.size(), "number of types");
    }
    void op_gettype() {
        auto& d = pick_dom();
        auto l = gen_list(d, !s.chance(1, 5));
        auto t = request(d, l);
        if (t && s.chance(1, 3)) VCHECK(request(d, l) == t, "the same request twice gives two types");
    }
    void op_foreign() {
        if (w.doms.size() < 2) { op_gettype(); return; }
        auto& a = *w.doms[0]; auto& b = *w.doms[1];
        List l = gen_list(b);
        VLOG("get type of a mutation " << l << " of D1 from D0");
        auto q0 = queries(a); auto qb = queries(b);
        exec("get_type of a foreign mutation", DOM, &a, nullptr, false, false, [&] {
            type_mutation mut(*b.d);
            for (auto m : l) mut.add(m->info);
            a.d->get_type(std::move(mut));
            return true;
        }, [](bool) {});
        VCHECK(queries(a) == q0 && queries(b) == qb, "a refused foreign mutation changed stored queries");
        count("foreign mutation refused");
    }
    void op_gc() {
        auto& d = pick_dom();
        bool cc = use_c();
        VLOG("collect garbage in D" << d.idx << (cc ? " (C)" : ""));
        auto q0 = queries(d);
        exec("gc", OK, &d, nullptr, cc, false, [&] { if (cc) dnmx_garbage_collect_types(d.d->to_c_hanlde()); else d.d->garbage_collect_types(); return true; }, [](bool) {});
        std::set<const type*> dead;
        size_t kept = 0;
        for (auto i = d.types.begin(); i != d.types.end(); ) {
            if (!w.count_objs(i->second)) { dead.insert(i->second); i = d.types.erase(i); } else { ++i; ++kept; }
        }
        for (auto i = q0.begin(); i != q0.end(); ) { if (dead.count(i->second)) i = q0.erase(i); else ++i; }
        VCHECK(queries(d) == q0, "stored queries after a collection: " << d.d->num_type_queries() << ", expected " << q0.size());
        count("gc");
        if (!dead.empty()) count("types collected");
        if (!dead.empty() && kept) count("gc that drops some types and keeps some");
        w.verify_dom(d, false);
    }
    static int sign(int x) { return x < 0 ? -1 : x > 0; }
    int model_type_cmp(const List& a, const List& b) {
        for (size_t i = 0; ; ++i) {
            if (i == a.size()) return i == b.size() ? 0 : -1;
            if (i == b.size()) return 1;
            if (a[i] != b[i]) {
                bool less = canon_less(a[i], b[i]);
                VCHECK(canonical_mixin_order()(a[i]->info, b[i]->info) == less && canonical_mixin_order()(&b[i]->info, &a[i]->info) == !less, "canonical order of " << *a[i] << " and " << *b[i]);
                return less ? -1 : 1;
            }
        }
    }
    std::vector<std::pair<List, const type*>> all_types(Dom& d) {
        std::vector<std::pair<List, const type*>> v; v.push_back({{}, &d.d->get_empty_type()});
        for (auto& x : d.types) v.push_back(x);
        return v;
    }
    void op_cmptypes() {
        auto& d = pick_dom();
        auto v = all_types(d);
        for (size_t i = 0; i < v.size() && i < 12; ++i) for (size_t j = 0; j < v.size() && j < 12; ++j) {
            int c = v[i].second->compare(*v[j].second);
            VEQ(sign(c), model_type_cmp(v[i].first, v[j].first), "order of types " << v[i].first << " and " << v[j].first);
            VEQ(*v[i].second == *v[j].second, i == j, "equality of types " << v[i].first << " and " << v[j].first);
        }
        if (v.size() > 2) count("types compared");
        if (w.doms.size() > 1) {
            auto x = all_types(*w.doms[0]), y = all_types(*w.doms[1]);
            int dir = 0;
            for (auto& a : x) for (auto& b : y) {
                int c = sign(a.second->compare(*b.second));
                VCHECK(c != 0 && sign(b.second->compare(*a.second)) == -c, "order of types of two domains");
                if (!dir) dir = c;
                VEQ(c, dir, "order of types of two domains is not one order");
            }
        }
    }
    void op_traverse() {
        auto& d = pick_dom();
        VLOG("full verification of D" << d.idx);
        w.verify_dom(d, true);
        std::ostringstream o;
        util::dbg_dmp(o, *d.d);
        auto t = o.str();
        auto has = [&](std::string_view n, const char* what) { VCHECK(n.empty() || t.find(std::string(n)) != std::string::npos, "the dump of the domain does not name its " << what << " " << q(n)); };
        has(d.name, "name");
        for (auto m : d.mixins) if (m) has(m->nm, "mixin");
        for (auto f : d.feats) if (f) has(f->nm, "feature");
        for (auto x : d.tcs) has(x->nm, "type class");
        for (auto& r : d.rules) has(r.first->nm, "rule");
        w.verify_dom(d, false);
        count("domain dumped and traversed");
    }

    // ---------- objects ----------
    std::vector<const void*> addrs(Obj& o) { std::vector<const void*> v; for (size_t i = 0; i < o.m.size(); ++i) v.push_back(o.o->get_at(mixin_index_t(i))); return v; }
    void check_same(Obj& o, const std::vector<const void*>& a, const char* what) {
        w.verify_obj(o);
        for (size_t i = 0; i < o.m.size(); ++i) VCHECK(o.o->get_at(mixin_index_t(i)) == a[i], what << ": " << *o.m[i].spec << " changed its address although the operation failed");
    }
    Obj& pick_obj() { return *w.objs[s.index(w.objs.size())]; }
    Obj* pick_obj_in(Dom* d, Obj* not_this = nullptr) { std::vector<Obj*> v; for (auto& o : w.objs) if (o->dom == d && o.get() != not_this) v.push_back(o.get()); return v.empty() ? nullptr : s.pick(v); }
    Res* pick_res() { return w.res[s.index(w.res.size())].get(); }

    uint64_t lineage_at(const void* p) { auto in = w.find_inst(p); return in ? in->lineage : 0; }

    bool has_init(const List& l, const std::map<Spec*, How>& how, const List& old) {
        for (auto m : l) if (!World::lhas(old, m) && !how.count(m) && !m->info.init) return false;
        return true;
    }

    // ob was successfully changed as e says: check events and take the new state into the model
    void applied(const char* what, Obj& ob, const Expect& e, const std::vector<const void*>& old_addr) {
        auto old = ob.m; auto old_t = ob.t;
        List ol = ob.list();
        const bool same_type = old_t == e.t;
        VCHECK(&ob.o->get_type() == e.t, what << ": the object is not of the requested type");
        std::vector<const Event*> cons;
        std::map<const void*, int> destroys, moves, assigns;
        auto old_ix = [&](Spec* m) { for (size_t i = 0; i < old.size(); ++i) if (old[i].spec == m) return int(i); return -1; };
        for (auto& ev : w.events) {
            switch (ev.kind) {
            case Ev::init: case Ev::ovr: case Ev::copy_init: cons.push_back(&ev); break;
            case Ev::destroy: VCHECK(++destroys[ev.ptr] == 1, what << ": two destructions at one address"); break;
            case Ev::move_init: {
                int i = old_ix(ev.spec);
                VCHECK(!same_type, what << ": " << *ev.spec << " is moved although the type does not change");
                VCHECK(i >= 0 && World::lhas(e.list, ev.spec), what << ": " << *ev.spec << " is moved but not in both types");
                VCHECK(!ev.spec->ext(), what << ": the external " << *ev.spec << " is moved");
                VCHECK(ev.src == old_addr[size_t(i)], what << ": " << *ev.spec << " is moved from somewhere else than its old place");
                VCHECK(++moves[ev.spec] == 1, what << ": " << *ev.spec << " is moved more than once");
                break;
            }
            case Ev::copy_asgn: case Ev::upd: {
                auto u = e.upd.find(ev.spec);
                VCHECK(u != e.upd.end() && u->second.first == ev.kind, what << ": unexpected " << ev_name(ev.kind) << " of " << *ev.spec);
                auto us = e.upd_src.find(ev.spec);
                if (us != e.upd_src.end()) VCHECK(us->second == ev.src, what << ": " << ev_name(ev.kind) << " of " << *ev.spec << " has another source");
                VCHECK(++assigns[ev.spec] == 1, what << ": two " << ev_name(ev.kind) << " of " << *ev.spec);
                break;
            }
            default: VFAIL(what << ": unexpected " << ev_name(ev.kind) << " of " << *ev.spec);
            }
        }
        for (auto& u : e.upd) VCHECK(assigns[u.first] == 1, what << ": no " << ev_name(u.second.first) << " of " << *u.first);
        // new ones, in type order
        List nw; for (auto m : e.list) if (old_ix(m) < 0) nw.push_back(m);
        {
            List got; for (auto ev : cons) got.push_back(ev->spec);
            VCHECK(got == nw, what << ": initialized mixins " << got << ", expected " << nw);
        }
        std::vector<MInst> fresh;
        for (size_t k = 0; k < nw.size(); ++k) {
            auto m = nw[k]; auto ev = cons[k];
            auto h = e.how.find(m);
            Ev kind = h == e.how.end() ? Ev::init : h->second.kind;
            VCHECK(ev->kind == kind, what << ": " << *m << " is initialized by " << ev_name(ev->kind) << ", expected " << ev_name(kind));
            if (h != e.how.end() && h->second.src) VCHECK(ev->src == h->second.src, what << ": " << *m << " is initialized from another source");
            auto in = w.find_inst(ev->ptr);
            VCHECK(in, what << ": " << *m << " died");
            int v = in->value;
            if (h == e.how.end()) VEQ(v, m->def_value, what << ": value of the new " << *m);
            else VCHECK(std::find(h->second.values.begin(), h->second.values.end(), v) != h->second.values.end(), what << ": value " << v << " of the new " << *m << ", expected " << h->second.values[0]);
            fresh.push_back({m, ev->lineage, v, nullptr});
            VCHECK(ob.o->get(m->info) == ev->ptr, what << ": the new " << *m << " is not where it was initialized");
        }
        // destroyed ones
        size_t want_destroys = 0; size_t common = 0, dead = 0;
        for (size_t i = 0; i < old.size(); ++i) {
            auto m = old[i].spec;
            bool stays = World::lhas(e.list, m);
            bool gone_here = !stays || moves.count(m);
            if (stays) ++common; else ++dead;
            if (gone_here && m->info.destroy) { ++want_destroys; VCHECK(destroys.count(old_addr[i]), what << ": " << (stays ? "the moved-out " : "the removed ") << *m << " is not destroyed"); }
            if (stays && !moves.count(m)) VCHECK(ob.o->get(m->info) == old_addr[i], what << ": " << *m << " changed its address without being moved");
        }
        VEQ(destroys.size(), want_destroys, what << ": number of destroyed instances");
        if (common && !same_type) count("common mixins kept");
        if (!moves.empty()) count("internal mixins moved");
        if (dead && common && !nw.empty()) count("mutation with kept, new and removed mixins");
        // new state
        std::vector<MInst> nm;
        for (auto m : e.list) {
            int i = old_ix(m);
            if (i >= 0) {
                auto x = old[size_t(i)];
                auto u = e.upd.find(m);
                if (u != e.upd.end()) x.value = u->second.second;
                nm.push_back(x);
            }
            else for (auto& f : fresh) if (f.spec == m) nm.push_back(f);
        }
        ob.m = nm; ob.t = e.t;
        for (auto& x : ob.m) if (x.spec->ext()) x.addr = ob.o->get(x.spec->info);
        w.verify_obj(ob);
    }

    // a type for object operations
    struct Target { const type* t; List l; };
    std::optional<Target> pick_target(Dom& d) {
        if (!d.types.empty() && s.chance(1, 2)) { auto it = d.types.begin(); std::advance(it, long(s.index(d.types.size()))); return Target{it->second, it->first}; }
        if (s.chance(1, 12)) return Target{&d.d->get_empty_type(), {}};
        auto l = gen_list(d);
        auto t = request(d, l);
        if (!t) return std::nullopt;
        return Target{t, list_of(d, t)};
    }
    List list_of(Dom& d, const type* t) { if (t == &d.d->get_empty_type()) return {}; for (auto& x : d.types) if (x.second == t) return x.first; VFAIL("unknown type"); }

    Obj& add_obj(Dom& d, Res* r) {
        auto o = std::make_unique<Obj>();
        o->idx = w.next_obj++; o->dom = &d; o->res = r; o->t = &d.d->get_empty_type();
        w.objs.push_back(std::move(o));
        return *w.objs.back();
    }
    void drop_obj(Obj& o) { for (size_t i = 0; i < w.objs.size(); ++i) if (w.objs[i].get() == &o) { w.objs.erase(w.objs.begin() + long(i)); return; } }
    // events of an object made from nothing
    void made(const char* what, Obj& ob, const Expect& e) {
        applied(what, ob, e, {});
        count("object made");
        if (e.list.size() >= 2) count("object of 2 or more mixins made");
    }
    void op_create() {
        if (int(w.objs.size()) >= c.max_objs) { op_destroy(); return; }
        auto& d = pick_dom();
        bool cc = use_c();
        Res* r = cc ? w.default_res : pick_res();
        if (s.chance(1, 6)) {
            auto& ob = add_obj(d, r);
            VLOG("O" << ob.idx << " = empty object of D" << d.idx << " in " << r->name << (cc ? " (C)" : ""));
            w.events.clear();
            if (cc) ob.o.reset(object::from_c_handle(dnmx_create_object_empty(d.d->to_c_hanlde())));
            else if (r == w.default_res && s.flip()) ob.o.reset(new object(*d.d));
            else ob.o.reset(new object(*d.d, alc(r)));
            made("create empty", ob, {&d.d->get_empty_type(), {}, {}, {}, {}});
            return;
        }
        auto t = pick_target(d);
        if (!t) return;
        bool sealed = !cc && s.chance(1, 10);
        auto& ob = add_obj(d, r);
        VLOG("O" << ob.idx << " = object of type " << t->l << " in " << r->name << (sealed ? " sealed" : "") << (cc ? " (C)" : ""));
        bool ok = has_init(t->l, {}, {});
        void* mem = nullptr;
        Oc oc = exec("create object", ok ? OK : OBJ, &d, nullptr, cc, true, [&] {
            if (cc) { auto h = dnmx_create_object_default(t->t); ob.o.reset(object::from_c_handle(h)); return h != nullptr; }
            mem = ::operator new(sizeof(object));
            w.owner_hint = static_cast<object*>(mem);
            struct G { void*& m; ~G() { if (m) ::operator delete(m); } } g{mem};
            auto p = new (mem) object(*t->t, alc(r), sealed);
            ob.o.reset(p); mem = nullptr;
            return true;
        }, [&](bool) { VCHECK(!ob.o, "an object exists although its construction failed"); obj_gone(ob); w.verify_world(); });
        if (oc != Oc::ok) { drop_obj(ob); return; }
        ob.sealed = sealed && true;
        made("create object", ob, {t->t, t->l, {}, {}, {}});
    }
    void obj_gone(Obj&) {}

    void check_destroyed(const char* what, const std::vector<MInst>& m, const std::vector<const void*>& a) {
        std::map<const void*, int> d;
        for (auto& e : w.events) {
            VCHECK(e.kind == Ev::destroy, what << ": unexpected " << ev_name(e.kind));
            ++d[e.ptr];
        }
        size_t want = 0;
        for (size_t i = 0; i < m.size(); ++i) if (m[i].spec->info.destroy) { ++want; VCHECK(d[a[i]] == 1, what << ": " << *m[i].spec << " is destroyed " << d[a[i]] << " times"); }
        VEQ(d.size(), want, what << ": destroyed instances");
    }
    void destroy(Obj& ob) {
        bool cc = use_c();
        VLOG("destroy O" << ob.idx << (cc ? " (C)" : ""));
        auto a = addrs(ob); auto m = ob.m;
        w.events.clear();
        w.owner_hint = ob.o.get();
        if (cc) dnmx_destroy_object(ob.o.release()->to_c_hanlde()); else ob.o.reset();
        w.owner_hint = nullptr;
        s.sync();
        check_destroyed("destroy", m, a);
        drop_obj(ob);
        count("object destroyed");
    }
    void op_destroy() { if (w.objs.empty()) return; destroy(pick_obj()); }

    void op_clear() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        int way = int(s.draw(3));
        bool cc = use_c();
        VLOG("clear O" << ob.idx << " way " << way << (cc ? " (C)" : ""));
        auto a = addrs(ob);
        uint32_t allowed = !ob.sealed ? OK : ob.m.empty() ? (OK | OBJ) : OBJ;
        Oc oc = exec("clear", allowed, &d, ob.o.get(), cc, true, [&] {
            if (cc) {
                if (way == 0) return dnmx_object_clear(ob.o->to_c_hanlde());
                if (way == 1) return dnmx_object_reset_type(ob.o->to_c_hanlde(), nullptr) == dnmx_result_success;
                return dnmx_object_reset_type(ob.o->to_c_hanlde(), dnmx_get_empty_type(d.d->to_c_hanlde())) == dnmx_result_success;
            }
            if (way == 0) ob.o->clear(); else if (way == 1) ob.o->reset_type(); else ob.o->reset_type(d.d->get_empty_type());
            return true;
        }, [&](bool) { check_same(ob, a, "clear"); w.verify_world(); });
        if (oc != Oc::ok) { count("change of a sealed object refused"); return; }
        applied("clear", ob, {&d.d->get_empty_type(), {}, {}, {}, {}}, a);
        count("object cleared");
    }
    uint32_t mut_allowed(Obj& ob, const type* t, bool ok) {
        if (ob.sealed) return ob.t == t ? (OK | OBJ) : OBJ;
        if (ob.t == t) return OK;
        return ok ? OK : OBJ;
    }
    void after_fail(Obj& ob, const std::vector<const void*>& a, const char* what) {
        check_same(ob, a, what);
        // whatever was initialized is destroyed: verify_world finds the rest
        w.verify_world();
        w.verify_dom(*ob.dom, false);
    }
    void op_reset() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto t = pick_target(d);
        if (!t) return;
        bool cc = use_c();
        int way = int(s.draw(3));
        VLOG("O" << ob.idx << " " << ob.list() << " to type " << t->l << " way " << way << (cc ? " (C)" : ""));
        auto a = addrs(ob);
        bool ok = has_init(t->l, {}, ob.list());
        Oc oc = exec("reset type", mut_allowed(ob, t->t, ok), &d, ob.o.get(), cc, true, [&] {
            if (cc) {
                if (way == 0) return dnmx_object_reset_type(ob.o->to_c_hanlde(), t->t) == dnmx_result_success;
                return dnmx_mutate_to(ob.o->to_c_hanlde(), t->t, nullptr, 0) == dnmx_result_success;
            }
            if (way == 0) ob.o->reset_type(*t->t); else if (way == 1) mutate_to(*ob.o, *t->t); else perform_object_mutation(*ob.o, *t->t);
            return true;
        }, [&](bool) { after_fail(ob, a, "reset type"); });
        if (oc != Oc::ok) { if (ob.sealed) count("change of a sealed object refused"); return; }
        count("mutation");
        applied("reset type", ob, {t->t, t->l, {}, {}, {}}, a);
    }

    // ---- overrides ----
    struct OvReq { Spec* sp; int value; int runs = 0; std::vector<Spec*> ran_for; };
    std::vector<std::unique_ptr<OvReq>> ov;
    Fn make_fn(OvReq& r, Obj& ob) {
        return [this, &r, &ob](init_new_args a) {
            ++r.runs;
            auto sp = World::spec_of(&a.info);
            if (sp != r.sp) w.softf([&](auto& o) { o << "the override for " << *r.sp << " is called for " << *sp; });
            if (!(a.target_index < a.target_type.num_mixins()) || a.target_type.mixins[a.target_index] != &a.info) w.softf([&](auto& o) { o << "the override for " << *r.sp << " is called with a wrong index or type"; });
            if (object_of(a.mixin_buf) != ob.o.get()) w.softf([&](auto& o) { o << "override: object_of the buffer of " << *sp << " is not the object"; });
            if (w.faults.point("functor")) w.faults.raise("functor");
            w.construct(sp, a.mixin_buf, r.value);
        };
    }
    static dnmx_error_return_t c_init_fn(dnmx_mutate_func_args a) {
        auto& r = *reinterpret_cast<std::pair<Machine*, OvReq*>*>(a.user_data);
        auto& w = r.first->w; auto& q = *r.second;
        auto sp = World::spec_of(a.info);
        ++q.runs;
        if (sp != q.sp) w.softf([&](auto& o) { o << "the C override for " << *q.sp << " is called for " << *sp; });
        if (!a.target_type || type::from_c_handle(a.target_type)->mixins[a.target_index] != a.info) w.soft("C override: index or type");
        if (a.source_type) w.soft("C init override: source type given");
        if (w.faults.point("init")) { if (w.faults.throwing) w.faults.raise("C init override"); return 77; }
        w.construct(sp, a.mixin_buf, q.value);
        return 0;
    }
    static dnmx_error_return_t c_upd_fn(dnmx_mutate_func_args a) {
        auto& r = *reinterpret_cast<std::pair<Machine*, OvReq*>*>(a.user_data);
        auto& w = r.first->w; auto& q = *r.second;
        auto sp = World::spec_of(a.info);
        if (sp != q.sp) w.softf([&](auto& o) { o << "the C update override for " << *q.sp << " is called for " << *sp; });
        auto in = w.need(sp, a.mixin_buf, "C update");
        if (!in) return 0;
        if (!a.source_type || type::from_c_handle(a.source_type)->mixins[a.source_index] != a.info) w.soft("C update override: source index or type");
        if (w.faults.point("init")) { if (w.faults.throwing) w.faults.raise("C update override"); return 78; }
        in->value = q.value;
        w.events.push_back({Ev::upd, sp, a.mixin_buf, nullptr, in->uid, in->lineage});
        return 0;
    }
    std::vector<std::unique_ptr<std::pair<Machine*, OvReq*>>> cov;

    template <typename T, typename F>
    static void dispatch(std::vector<std::unique_ptr<T>>& ops, F&& f) {
        switch (ops.size()) {
        case 1: f(*ops[0]); break;
        case 2: f(*ops[0], *ops[1]); break;
        case 3: f(*ops[0], *ops[1], *ops[2]); break;
        case 4: f(*ops[0], *ops[1], *ops[2], *ops[3]); break;
        default: f(*ops[0], *ops[1], *ops[2], *ops[3], *ops[4]); break;
        }
    }

    struct MOp { int kind; Spec* sp; bool by_name; bool func; bool unknown; int ov = -1; };
    std::vector<MOp> gen_mops(Obj& ob, bool funcs) {
        auto& d = *ob.dom;
        auto v = specs_of(d);
        std::vector<MOp> ops;
        int n = 1 + int(s.weighted({4, 4, 3, 2, 1}));
        auto cur = ob.list();
        for (int i = 0; i < n; ++i) {
            MOp o{};
            o.kind = int(s.weighted({5, 4, 2})); // add remove to_back
            if (o.kind == 0) {
                std::vector<Spec*> u; for (auto m : v) if (m->reg == &d && !World::lhas(cur, m)) u.push_back(m);
                o.sp = u.empty() || s.chance(1, 15) ? s.pick(v) : s.pick(u);
                o.func = funcs && s.chance(2, 5);
                cur.push_back(o.sp);
            }
            else {
                o.sp = cur.empty() || s.chance(1, 10) ? s.pick(v) : s.pick(cur);
                World::lremove(cur, o.sp);
                if (o.kind == 2) cur.push_back(o.sp);
            }
            o.by_name = uniq_name(*o.sp) && s.chance(1, 3);
            o.unknown = o.by_name && s.chance(1, 20);
            ops.push_back(o);
        }
        return ops;
    }
    // what the operations do to a list; false: refused
    bool model_mops(Dom& d, std::vector<MOp>& ops, List& l) {
        for (auto& o : ops) {
            if (o.kind == 0) {
                if (o.unknown || (o.by_name && o.sp->reg != &d)) return false;
                l.push_back(o.sp);
            }
            else if (o.kind == 1) { if (!o.unknown) World::lremove(l, o.sp); }
            else {
                if (o.unknown || !World::lremove(l, o.sp)) return false;
                l.push_back(o.sp);
            }
        }
        return true;
    }
    void log_mops(const std::vector<MOp>& ops) {
        for (auto& o : ops) VLOG("    " << (o.kind == 0 ? "add " : o.kind == 1 ? "remove " : "to_back ") << *o.sp << (o.by_name ? " by name" : "") << (o.unknown ? " (unknown name)" : "") << (o.func ? " with a function" : ""));
    }
    // overrides which must run
    void expect_ov(Expect& e, Obj& ob, const std::vector<OvReq*>& reqs) {
        for (auto r : reqs) {
            if (!World::lhas(e.list, r->sp) || ob.find(r->sp) >= 0) continue;
            auto& h = e.how[r->sp];
            h.kind = Ev::ovr;
            h.values.push_back(r->value);
        }
    }
    void check_ov(const Expect& e, Obj& ob, const std::vector<OvReq*>& reqs, const std::vector<Spec*>& old) {
        std::map<Spec*, int> runs;
        for (auto r : reqs) runs[r->sp] += r->runs;
        for (auto& x : runs) {
            bool want = World::lhas(e.list, x.first) && !World::lhas(old, x.first) && e.t != ob_old_t;
            VEQ(x.second, int(want), "runs of the overrides for " << *x.first);
            if (want) count("override run"); else count("override ignored");
        }
        (void)ob;
    }
    const type* ob_old_t = nullptr;

    void op_mutate() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        bool cc = use_c();
        auto ops = gen_mops(ob, true);
        VLOG("mutate O" << ob.idx << " " << ob.list() << (ob.sealed ? " sealed" : "") << (cc ? " (C)" : ""));
        log_mops(ops);
        List l = ob.list();
        bool valid = model_mops(d, ops, l);
        Resolved r; if (valid) r = w.resolve(d, l); else r.st = Resolved::invalid;
        run_mutate(ob, ops, valid, r, cc);
    }
    void run_mutate(Obj& ob, std::vector<MOp>& ops, bool valid, Resolved& r, bool cc) {
        auto& d = *ob.dom;
        auto a = addrs(ob);
        auto old = ob.list();
        Expect e; e.list = r.list;
        ov.clear(); cov.clear();
        std::vector<OvReq*> reqs;
        for (auto& o : ops) if (o.func) { ov.push_back(std::make_unique<OvReq>(OvReq{o.sp, 5000 + int(ov.size()), 0, {}})); o.ov = int(ov.size()) - 1; reqs.push_back(ov.back().get()); }
        expect_ov(e, ob, reqs);
        uint32_t allowed;
        if (!valid) allowed = TYP;
        else if (r.st == Resolved::rule_throw) allowed = FLT;
        else if (r.st == Resolved::invalid) allowed = TYP | DOM;
        else if (r.st != Resolved::ok) allowed = TYP;
        else if (ob.sealed) allowed = r.list == old ? (OK | OBJ) : OBJ;
        else if (r.list == old) allowed = OK;
        else allowed = has_init(r.list, e.how, old) ? OK : OBJ;
        if (ob.sealed && allowed != OBJ) allowed |= OBJ; // which error comes first is not said
        auto sync_types = [&] {
            // the type may have been created even if the object was not changed
            if (r.st == Resolved::ok && !r.list.empty() && !d.types.count(r.list) && d.d->num_types() == d.types.size() + 1) {
                const type* t = nullptr;
                domain_traverse tr(*d.d);
                tr.traverse_types([&](const type& x) { bool k = false; for (auto& y : d.types) if (y.second == &x) k = true; if (!k) t = &x; });
                adopt(d, r.list, t, nullptr);
            }
        };
        Oc oc = exec("mutate", allowed, &d, ob.o.get(), cc, true, [&] {
            for (auto q : reqs) q->runs = 0;
            if (cc) {
                cov.clear();
                std::vector<dnmx_mutate_op> cops;
                for (auto& o : ops) {
                    dnmx_mutate_op x = {};
                    x.op_type = o.kind == 0 ? dnmx_mutate_op_add : o.kind == 1 ? dnmx_mutate_op_remove : dnmx_mutate_op_to_back;
                    if (o.by_name) x.mixin_name = o.unknown ? dnmx_make_sv_lit("unknown mixin") : dnmx_sv::from_std(o.sp->nm); else x.mixin = &o.sp->info;
                    if (o.func) { cov.push_back(std::make_unique<std::pair<Machine*, OvReq*>>(this, ov[size_t(o.ov)].get())); x.init_override = c_init_fn; x.user_data = uintptr_t(cov.back().get()); }
                    cops.push_back(x);
                }
                return dnmx_mutate(ob.o->to_c_hanlde(), cops.data(), uint32_t(cops.size())) == dnmx_result_success;
            }
            std::vector<std::unique_ptr<AnyOp>> rops;
            for (auto& o : ops) {
                std::string_view nm = o.unknown ? std::string_view("unknown mixin") : o.sp->nm;
                auto put = [&](auto tag, auto&&... x) { rops.push_back(std::make_unique<AnyOp>(tag, std::forward<decltype(x)>(x)...)); };
                if (o.kind == 0 && o.func) {
                    if (o.by_name) put(std::in_place_type<add_mixin_op_with_func_by_name<Fn>>, nm, make_fn(*ov[size_t(o.ov)], ob));
                    else put(std::in_place_type<add_mixin_op_with_func_by_info<Fn>>, o.sp->info, make_fn(*ov[size_t(o.ov)], ob));
                }
                else if (o.kind == 0) { if (o.by_name) put(std::in_place_type<mutate_op_just_add_by_name>, nm); else put(std::in_place_type<mutate_op_just_add_by_info>, o.sp->info); }
                else if (o.kind == 1) { if (o.by_name) put(std::in_place_type<mutate_op_remove_by_name>, nm); else put(std::in_place_type<mutate_op_remove_by_info>, o.sp->info); }
                else { if (o.by_name) put(std::in_place_type<mutate_op_to_back_by_name>, nm); else put(std::in_place_type<mutate_op_to_back_by_info>, o.sp->info); }
            }
            dispatch(rops, [&](auto&... x) { mutate(*ob.o, x...); });
            return true;
        }, [&](bool) { sync_types(); after_fail(ob, a, "mutate"); });
        sync_types();
        if (oc != Oc::ok) { if (ob.sealed) count("change of a sealed object refused"); return; }
        count("mutation");
        if (r.changed) count("mutation changed by rules");
        e.t = r.list.empty() ? &d.d->get_empty_type() : &ob.o->get_type();
        if (!r.list.empty()) {
            auto k = d.types.find(r.list);
            adopt(d, r.list, e.t, k == d.types.end() ? nullptr : k->second);
        }
        ob_old_t = ob.t;
        applied("mutate", ob, e, a);
        check_ov(e, ob, reqs, old);
        if (r.list.empty() && !old.empty()) count("mutation that removes all mixins");
    }

    void op_mutate_to() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto t = pick_target(d);
        if (!t) return;
        bool cc = use_c();
        auto v = specs_of(d);
        struct TOp { Spec* sp; int kind; bool by_name, unknown; int ov; bool init, upd; int val; };
        std::vector<TOp> ops;
        int n = 1 + int(s.weighted({4, 3, 2, 1}));
        for (int i = 0; i < n; ++i) {
            TOp o{};
            o.sp = t->l.empty() || s.chance(1, 6) ? s.pick(v) : s.pick(t->l);
            o.by_name = uniq_name(*o.sp) && s.chance(1, 3);
            o.unknown = o.by_name && s.chance(1, 10);
            o.kind = cc ? 0 : int(s.weighted({10, 3, 1, 1}));
            o.init = s.chance(4, 5); o.upd = s.chance(1, 2);
            o.val = 7000 + i;
            ops.push_back(o);
        }
        VLOG("mutate_to O" << ob.idx << " " << ob.list() << " to " << t->l << (ob.sealed ? " sealed" : "") << (cc ? " (C)" : ""));
        for (auto& o : ops) VLOG("    op kind " << o.kind << " on " << *o.sp << (o.by_name ? " by name" : "") << (o.unknown ? " (unknown)" : "") << (cc ? (o.init ? " init" : "") : "") << (cc && o.upd ? " update" : ""));
        auto a = addrs(ob); auto old = ob.list();
        Expect e; e.list = t->l; e.t = t->t;
        ov.clear(); cov.clear();
        std::vector<OvReq*> reqs; // C++: those which can run
        for (auto& o : ops) {
            ov.push_back(std::make_unique<OvReq>(OvReq{o.sp, o.val, 0, {}})); o.ov = int(ov.size()) - 1;
            bool named = !o.unknown && !(o.by_name && !cc && o.sp->reg != &d);
            if (!cc && o.kind < 2 && named) reqs.push_back(ov.back().get());
        }
        if (!cc) expect_ov(e, ob, reqs);
        else {
            // the first override of a mixin counts
            std::set<Spec*> seen;
            for (auto& o : ops) {
                if (o.unknown || !seen.insert(o.sp).second || !World::lhas(t->l, o.sp)) continue;
                bool common = ob.find(o.sp) >= 0;
                if (common && o.upd) e.upd[o.sp] = {Ev::upd, o.val};
                if (!common && o.init) e.how[o.sp] = {Ev::ovr, {o.val}, nullptr};
            }
        }
        // same type: with C common mixins are still updated; C++ does nothing
        bool ok = has_init(t->l, e.how, old);
        bool same = ob.t == t->t;
        uint32_t allowed = mut_allowed(ob, t->t, ok);
        std::vector<int> vals; for (auto& x : ob.m) vals.push_back(x.value);
        Oc oc = exec("mutate_to", allowed, &d, ob.o.get(), cc, true, [&] {
            for (auto& q : ov) q->runs = 0;
            if (cc) {
                cov.clear();
                std::vector<dnmx_mutate_to_override> co;
                for (auto& o : ops) {
                    dnmx_mutate_to_override x = {};
                    if (o.by_name) x.mixin_name = o.unknown ? dnmx_make_sv_lit("unknown mixin") : dnmx_sv::from_std(o.sp->nm); else x.mixin = &o.sp->info;
                    cov.push_back(std::make_unique<std::pair<Machine*, OvReq*>>(this, ov[size_t(o.ov)].get()));
                    if (o.init) x.init_new = c_init_fn;
                    if (o.upd) x.update_common = c_upd_fn;
                    x.user_data = uintptr_t(cov.back().get());
                    co.push_back(x);
                }
                return dnmx_mutate_to(ob.o->to_c_hanlde(), t->t, co.data(), uint32_t(co.size())) == dnmx_result_success;
            }
            std::vector<std::unique_ptr<AnyToOp>> rops;
            for (auto& o : ops) {
                std::string_view nm = o.unknown ? std::string_view("unknown mixin") : o.sp->nm;
                auto put = [&](auto tag, auto&&... x) { rops.push_back(std::make_unique<AnyToOp>(tag, std::forward<decltype(x)>(x)...)); };
                if (o.kind == 0) { if (o.by_name) put(std::in_place_type<construct_mixin_op_with_func_by_name<Fn>>, nm, make_fn(*ov[size_t(o.ov)], ob)); else put(std::in_place_type<object_mutate_op_with_func<Fn>>, o.sp->info, make_fn(*ov[size_t(o.ov)], ob)); }
                else if (o.kind == 1) { o.unknown ? put(std::in_place_type<mutate_op_remove_by_info>, o.sp->info) : put(std::in_place_type<add_mixin_op_with_func_by_info<Fn>>, o.sp->info, make_fn(*ov[size_t(o.ov)], ob)); }
                else if (o.kind == 2) put(std::in_place_type<mutate_op_remove_by_info>, o.sp->info);
                else put(std::in_place_type<mutate_op_just_add_by_info>, o.sp->info);
            }
            dispatch(rops, [&](auto&... x) { mutate_to(*ob.o, *t->t, x...); });
            return true;
        }, [&](bool faulted) {
            // user functions that already ran on common mixins are the user's; take their values over
            for (size_t i = 0; i < ob.m.size(); ++i) {
                auto u = e.upd.find(ob.m[i].spec);
                if (u == e.upd.end()) continue;
                auto in = w.find_inst(ob.o->get_at(mixin_index_t(i)));
                if (in && (in->value == vals[i] || in->value == u->second.second)) ob.m[i].value = in->value;
            }
            (void)faulted;
            after_fail(ob, a, "mutate_to");
            for (size_t i = 0; i < ob.m.size(); ++i) { auto in = w.find_inst(ob.o->get_at(mixin_index_t(i))); in->value = vals[i]; ob.m[i].value = vals[i]; }
        });
        if (oc != Oc::ok) { if (ob.sealed) count("change of a sealed object refused"); return; }
        count("mutation");
        ob_old_t = ob.t;
        if (same && !cc) e.upd.clear();
        applied("mutate_to", ob, e, a);
        if (!cc) check_ov(e, ob, reqs, old);
        if (t->l.empty() && !old.empty()) count("mutation that removes all mixins");
    }

    void op_gradual() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto ops = gen_mops(ob, false);
        int end = int(s.weighted({4, 3, 2, 1})); // scope end, apply, cancel, exception
        if (end == 3 && c.unwind_pct == 0) end = 0;
        std::vector<bool> lacking; for (auto& o : ops) lacking.push_back(o.kind == 0 && s.chance(1, 4));
        VLOG("gradual mutation of O" << ob.idx << " " << ob.list() << (ob.sealed ? " sealed" : "") << " ended by " << (end == 0 ? "its scope" : end == 1 ? "apply" : end == 2 ? "cancel" : "an exception"));
        log_mops(ops);
        List l = ob.list();
        bool valid = true;
        for (size_t i = 0; i < ops.size() && valid; ++i) {
            std::vector<MOp> one = {ops[i]};
            if (lacking[i] && !ops[i].unknown && World::lhas(l, ops[i].sp)) continue;
            valid = model_mops(d, one, l);
        }
        Resolved r; if (valid) r = w.resolve(d, l); else r.st = Resolved::invalid;
        auto a = addrs(ob); auto old = ob.list();
        uint32_t allowed;
        const bool applies = end < 2;
        if (!valid) allowed = TYP;
        else if (end == 3) allowed = FLT;
        else if (end == 2) allowed = OK;
        else if (r.st == Resolved::rule_throw) allowed = FLT;
        else if (r.st == Resolved::invalid) allowed = TYP | DOM;
        else if (r.st != Resolved::ok) allowed = TYP;
        else if (ob.sealed) allowed = r.list == old ? (OK | OBJ) : OBJ;
        else if (r.list == old) allowed = OK;
        else allowed = has_init(r.list, {}, old) ? OK : OBJ;
        if (ob.sealed && allowed != OK) allowed |= OBJ;
        auto sync_types = [&] {
            if (applies && r.st == Resolved::ok && !r.list.empty() && !d.types.count(r.list) && d.d->num_types() == d.types.size() + 1) {
                const type* t = nullptr;
                domain_traverse tr(*d.d);
                tr.traverse_types([&](const type& x) { bool k = false; for (auto& y : d.types) if (y.second == &x) k = true; if (!k) t = &x; });
                adopt(d, r.list, t, nullptr);
            }
        };
        Oc oc = exec("gradual mutation", allowed, &d, ob.o.get(), false, applies, [&] {
            auto g = mutate(*ob.o);
            for (size_t i = 0; i < ops.size(); ++i) {
                auto& o = ops[i];
                std::string_view nm = o.unknown ? std::string_view("unknown mixin") : o.sp->nm;
                if (o.kind == 0) {
                    if (lacking[i]) { if (o.by_name) g.add_if_lacking(nm); else g.add_if_lacking(o.sp->info); }
                    else { if (o.by_name) g.add(nm); else g.add(o.sp->info); }
                }
                else if (o.kind == 1) { if (o.by_name) g.remove(nm); else g.remove(o.sp->info); }
                else { if (o.by_name) g.to_back(nm); else g.to_back(o.sp->info); }
                if (w.events.size()) VFAIL("a gradual mutation touches mixins before it is applied");
            }
            if (end == 1) g.apply();
            if (end == 2) g.cancel();
            if (end == 3) throw FaultEx("user");
            return true;
        }, [&](bool) { sync_types(); after_fail(ob, a, "gradual mutation"); });
        sync_types();
        if (oc != Oc::ok) return;
        if (!applies) { check_same(ob, a, "cancelled mutation"); VCHECK(w.events.empty(), "a cancelled mutation touched mixins"); count("cancelled mutation"); return; }
        count("mutation"); count("gradual mutation");
        Expect e; e.list = r.list;
        e.t = r.list.empty() ? &d.d->get_empty_type() : &ob.o->get_type();
        if (!r.list.empty()) { auto k = d.types.find(r.list); adopt(d, r.list, e.t, k == d.types.end() ? nullptr : k->second); }
        applied("gradual mutation", ob, e, a);
    }

    void op_piecewise() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto t = pick_target(d);
        if (!t) return;
        auto a = addrs(ob); auto old = ob.list();
        // a plan: steps
        struct St { int kind; int at; };
        std::vector<St> plan;
        int np = int(s.draw(5));
        int n = int(t->l.size());
        for (int i = 0; i < np; ++i) plan.push_back({int(s.weighted({3, 2, 2, 2, 3, 1})), int(s.draw(uint64_t(n) + 1))});
        int end = int(s.weighted({8, 1, 1})); // scope, rollback, finalize if complete
        VLOG("piecewise mutation of O" << ob.idx << " " << old << " to " << t->l << (ob.sealed ? " sealed" : ""));
        for (auto& p : plan) { static const char* nm[] = {"update_next", "update_each upto", "construct_each_new upto", "default_construct upto", "update_at", "user throws in the next new"}; VLOG("    " << nm[p.kind] << " " << p.at); }
        // model: position
        Expect e; e.t = t->t; e.list = t->l;
        bool err = false, thrown = false;
        const bool same = ob.t == t->t;
        int pos = 0;
        std::map<Spec*, int> step_how; // how each mixin is treated
        auto isnew = [&](int i) { return !World::lhas(old, t->l[size_t(i)]); };
        auto dflt = [&](int i) { if (isnew(i) && !t->l[size_t(i)]->info.init) { err = true; return false; } return true; };
        int val = 9000;
        auto treat = [&](int i, bool upd_common) { auto m = t->l[size_t(i)]; if (isnew(i)) { e.how[m] = {Ev::ovr, {val + i}, nullptr}; } else if (upd_common) e.upd[m] = {Ev::upd, val + i}; };
        std::vector<St> run;
        if (!ob.sealed) for (auto p : plan) {
            if (err || thrown) break;
            run.push_back(p);
            switch (p.kind) {
            case 0: if (pos < n) { treat(pos, true); ++pos; } break;
            case 1: while (pos < p.at) { treat(pos, true); ++pos; } break;
            case 2: while (pos < p.at) { treat(pos, false); ++pos; } break;
            case 3: while (pos < p.at && dflt(pos)) ++pos; break;
            case 4:
                if (p.at == n) { run.pop_back(); break; } // the end is not an index of a mixin
                if (p.at < pos) { err = true; break; }
                while (pos < p.at && dflt(pos)) ++pos;
                if (!err) { treat(pos, true); ++pos; }
                break;
            case 5: { int k = pos; while (k < n && !isnew(k)) ++k; if (k < n) thrown = true; pos = n < k + 1 ? n : k; if (k >= n) pos = n; break; }
            }
        }
        bool rolled = false;
        if (!err && !thrown) {
            if (end == 1) rolled = true;
            else for (int k = pos; k < n; ++k) if (!dflt(k)) break;
        }
        uint32_t allowed = ob.sealed ? (same ? OBJ : OBJ) : thrown ? FLT : err ? OBJ : OK;
        std::vector<int> vals; for (auto& x : ob.m) vals.push_back(x.value);
        auto restore = [&](const char* what) {
            for (size_t i = 0; i < ob.m.size(); ++i) {
                auto u = e.upd.find(ob.m[i].spec);
                if (u == e.upd.end()) continue;
                auto in = w.find_inst(ob.o->get_at(mixin_index_t(i)));
                if (in && (in->value == vals[i] || in->value == u->second.second)) ob.m[i].value = in->value;
            }
            after_fail(ob, a, what);
            for (size_t i = 0; i < ob.m.size(); ++i) { auto in = w.find_inst(ob.o->get_at(mixin_index_t(i))); in->value = vals[i]; ob.m[i].value = vals[i]; }
        };
        Oc oc = exec("piecewise mutation", allowed, &d, ob.o.get(), false, true, [&] {
            object_mutation mut(*ob.o, *t->t);
            auto cons = [&](init_new_args x) {
                if (w.faults.point("functor")) w.faults.raise("functor");
                if (object_of(x.mixin_buf) != ob.o.get()) w.soft("piecewise: object_of the new mixin is not the object");
                if (&x.target_type != t->t || t->t->mixins[x.target_index] != &x.info) w.soft("piecewise: wrong type or index of a new mixin");
                w.construct(World::spec_of(&x.info), x.mixin_buf, val + int(x.target_index));
            };
            auto upd = [&](update_common_args x) {
                auto sp = World::spec_of(&x.info);
                if (w.faults.point("functor")) w.faults.raise("functor");
                auto in = w.need(sp, x.mixin_buf, "update_common");
                if (!in) return;
                if (&x.source_type != ob.t || ob.t->mixins[x.source_index] != &x.info || t->t->mixins[x.target_index] != &x.info) w.soft("piecewise: wrong indices of a common mixin");
                int i = ob.find(sp);
                if (i < 0 || a[size_t(i)] != x.mixin_buf) { w.soft("piecewise: the common mixin's address"); return; }
                in->value = val + int(x.target_index);
                w.events.push_back({Ev::upd, sp, x.mixin_buf, nullptr, in->uid, in->lineage});
            };
            for (auto& p : run) switch (p.kind) {
            case 0: mut.update_next_mixin(cons, upd); break;
            case 1: mut.update_each_mixin(cons, upd, mixin_index_t(p.at)); break;
            case 2: mut.construct_each_new_mixin(cons, mixin_index_t(p.at)); break;
            case 3: mut.default_construct_each_new_mixin(mixin_index_t(p.at)); break;
            case 4: mut.update_at(mixin_index_t(p.at), cons, upd); break;
            case 5: mut.construct_each_new_mixin([&](init_new_args) { throw FaultEx("user throws"); }); break;
            }
            if (end == 1) mut.rollback();
            if (end == 2 && mut.complete()) mut.finalize();
            return true;
        }, [&](bool) { restore("piecewise mutation"); });
        if (oc != Oc::ok) { count(ob.sealed ? "change of a sealed object refused" : err ? "piecewise mutation refused" : "piecewise mutation aborted"); return; }
        if (rolled) { restore("rolled back mutation"); count("piecewise mutation rolled back"); return; }
        count("mutation"); count("piecewise mutation");
        applied("piecewise mutation", ob, e, a);
    }

    // ---- copies ----
    void op_copy() {
        if (w.objs.empty()) return;
        if (int(w.objs.size()) >= c.max_objs) { op_destroy(); return; }
        auto& src = pick_obj(); auto& d = *src.dom;
        bool cc = use_c();
        Res* r = cc ? w.default_res : pick_res();
        auto& ob = add_obj(d, r);
        VLOG("O" << ob.idx << " = copy of O" << src.idx << " " << src.list() << " in " << r->name << (cc ? " (C)" : ""));
        bool ok = true;
        for (auto& m : src.m) if (!m.spec->info.copy_init) ok = false;
        auto a = addrs(src);
        Oc oc = exec("copy", ok ? OK : OBJ, &d, nullptr, cc, true, [&] {
            if (cc) { auto h = dnmx_create_object_copy(src.o->to_c_hanlde()); ob.o.reset(object::from_c_handle(h)); return h != nullptr; }
            if (r == w.default_res) ob.o.reset(new object(src.o->copy())); else ob.o.reset(new object(src.o->copy(alc(r))));
            return true;
        }, [&](bool) { VCHECK(!ob.o, "a copy exists although it failed"); check_same(src, a, "copy (source)"); w.verify_world(); });
        if (oc != Oc::ok) {
            if (!ok) for (auto& e : w.events) VCHECK(e.kind == Ev::copy_init || e.kind == Ev::destroy, "copy: unexpected " << ev_name(e.kind));
            drop_obj(ob); return;
        }
        check_same(src, a, "copy (source)");
        Expect e; e.t = src.t; e.list = src.list();
        for (size_t i = 0; i < src.m.size(); ++i) e.how[src.m[i].spec] = {Ev::copy_init, {src.m[i].value}, a[i]};
        made("copy", ob, e);
        count("copy");
        if (src.sealed) count("copy of a sealed object");
        if (src.m.size() > 1) count("copy of 2 or more mixins");
        // independent
        if (!ob.m.empty()) { int v = ob.m[0].value; poke(ob, 0, v + 1); check_same(src, a, "source after its copy changed"); }
    }
    void op_copy_from() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto src = pick_obj_in(&d);
        bool cc = use_c();
        VLOG("O" << ob.idx << " " << ob.list() << (ob.sealed ? " sealed" : "") << " copy_from O" << src->idx << " " << src->list() << (cc ? " (C)" : ""));
        bool missing = false, needs_init_or_asgn_only = true;
        (void)needs_init_or_asgn_only;
        for (auto& m : src->m) { if (ob.find(m.spec) >= 0) { if (!m.spec->info.copy_asgn) missing = true; } else if (!m.spec->info.copy_init) missing = true; }
        auto a = addrs(ob); auto sa = addrs(*src); auto old = ob.list();
        std::vector<int> vals; for (auto& x : ob.m) vals.push_back(x.value);
        bool self = src == &ob;
        uint32_t allowed = ob.sealed ? OBJ : missing ? OBJ : OK;
        Oc oc = exec("copy_from", allowed, &d, nullptr, cc, true, [&] {
            if (cc) return dnmx_object_copy_from(ob.o->to_c_hanlde(), src->o->to_c_hanlde()) == dnmx_result_success;
            ob.o->copy_from(*src->o); return true;
        }, [&](bool faulted) {
            if (!faulted) VCHECK(w.events.empty(), "a refused copy_from touched mixins");
            // assignments to common mixins done before the fault stay
            if (faulted) for (size_t i = 0; i < ob.m.size(); ++i) {
                int k = src->find(ob.m[i].spec);
                auto in = w.find_inst(ob.o->get_at(mixin_index_t(i)));
                if (k >= 0 && in && (in->value == vals[i] || in->value == src->m[size_t(k)].value)) ob.m[i].value = in->value;
            }
            if (!self) check_same(*src, sa, "copy_from (source)");
            after_fail(ob, a, "copy_from");
            if (faulted) for (size_t i = 0; i < ob.m.size(); ++i) { auto in = w.find_inst(ob.o->get_at(mixin_index_t(i))); in->value = vals[i]; ob.m[i].value = vals[i]; }
        });
        if (oc != Oc::ok) { count(ob.sealed ? "change of a sealed object refused" : "copy with missing functions refused"); return; }
        if (!self) check_same(*src, sa, "copy_from (source)");
        Expect e; e.t = src->t; e.list = src->list();
        for (size_t i = 0; i < src->m.size(); ++i) {
            auto m = src->m[i].spec;
            if (World::lhas(old, m)) { e.upd[m] = {Ev::copy_asgn, src->m[i].value}; e.upd_src[m] = sa[i]; }
            else e.how[m] = {Ev::copy_init, {src->m[i].value}, sa[i]};
        }
        applied("copy_from", ob, e, a);
        count("copy_from");
        if (!e.upd.empty() && !e.how.empty()) count("copy_from with assigned and new mixins");
    }
    void op_copy_match() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto src = pick_obj_in(&d);
        VLOG("O" << ob.idx << " " << ob.list() << " copy_matching_from O" << src->idx << " " << src->list());
        bool missing = false; int common = 0;
        for (auto& m : src->m) if (ob.find(m.spec) >= 0) { ++common; if (!m.spec->info.copy_asgn) missing = true; }
        auto a = addrs(ob); auto sa = addrs(*src);
        std::vector<int> vals; for (auto& x : ob.m) vals.push_back(x.value);
        Oc oc = exec("copy_matching_from", missing ? OBJ : OK, &d, nullptr, false, true, [&] { ob.o->copy_matching_from(*src->o); return true; }, [&](bool faulted) {
            if (!faulted) VCHECK(w.events.empty(), "a refused copy_matching_from touched mixins");
            if (faulted) for (size_t i = 0; i < ob.m.size(); ++i) {
                int k = src->find(ob.m[i].spec);
                auto in = w.find_inst(ob.o->get_at(mixin_index_t(i)));
                if (k >= 0 && in && (in->value == vals[i] || in->value == src->m[size_t(k)].value)) ob.m[i].value = in->value;
            }
            after_fail(ob, a, "copy_matching_from");
            if (faulted) for (size_t i = 0; i < ob.m.size(); ++i) { auto in = w.find_inst(ob.o->get_at(mixin_index_t(i))); in->value = vals[i]; ob.m[i].value = vals[i]; }
        });
        if (oc != Oc::ok) { count("copy with missing functions refused"); return; }
        std::map<Spec*, int> n;
        for (auto& e : w.events) {
            VCHECK(e.kind == Ev::copy_asgn, "copy_matching_from: unexpected " << ev_name(e.kind));
            int i = ob.find(e.spec), k = src->find(e.spec);
            VCHECK(i >= 0 && k >= 0 && e.ptr == a[size_t(i)] && e.src == sa[size_t(k)] && ++n[e.spec] == 1, "copy_matching_from: wrong assignment of " << *e.spec);
        }
        VEQ(int(n.size()), common, "copy_matching_from: assigned mixins");
        for (auto& m : ob.m) { int k = src->find(m.spec); if (k >= 0) m.value = src->m[size_t(k)].value; }
        check_same(ob, a, "copy_matching_from");
        if (src != &ob) check_same(*src, sa, "copy_matching_from (source)");
        count("copy_matching");
        if (common && (common < int(ob.m.size()) || common < int(src->m.size()))) count("matching copy with unmatched mixins");
    }
    void op_move_match() {
        if (w.objs.size() < 2) return;
        auto& ob = pick_obj(); auto& d = *ob.dom;
        auto src = pick_obj_in(&d, &ob);
        if (!src) return;
        bool fb = s.chance(2, 5);
        VLOG("O" << ob.idx << " " << ob.list() << " move_matching_from O" << src->idx << " " << src->list() << (fb ? " with fallback" : ""));
        bool missing = false; int common = 0;
        for (auto& m : src->m) if (ob.find(m.spec) >= 0) { ++common; if (!m.spec->info.move_asgn && !(fb && m.spec->info.move_init)) missing = true; }
        auto a = addrs(ob); auto sa = addrs(*src);
        Oc oc = exec("move_matching_from", missing ? OBJ : OK, &d, nullptr, false, true, [&] { ob.o->move_matching_from(*src->o, fb); return true; }, [&](bool) {
            VCHECK(w.events.empty(), "a refused move_matching_from touched mixins");
            check_same(*src, sa, "move_matching_from (source)");
            after_fail(ob, a, "move_matching_from");
        });
        if (oc != Oc::ok) { count("move with missing functions refused"); return; }
        std::map<Spec*, int> moved, destroyed;
        for (auto& e : w.events) {
            int i = ob.find(e.spec), k = src->find(e.spec);
            VCHECK(i >= 0 && k >= 0 && e.ptr == a[size_t(i)], "move_matching_from: " << ev_name(e.kind) << " of " << *e.spec);
            if (e.kind == Ev::destroy) { VCHECK(++destroyed[e.spec] == 1, "move_matching_from: destroyed twice"); continue; }
            VCHECK(e.kind == (e.spec->info.move_asgn ? Ev::move_asgn : Ev::move_init), "move_matching_from: unexpected " << ev_name(e.kind) << " of " << *e.spec);
            VCHECK(e.src == sa[size_t(k)] && ++moved[e.spec] == 1, "move_matching_from: wrong move of " << *e.spec);
        }
        VEQ(int(moved.size()), common, "move_matching_from: moved mixins");
        for (auto& x : moved) VEQ(destroyed[x.first], int(!x.first->info.move_asgn && x.first->info.destroy), "move_matching_from: destructions of " << *x.first);
        for (size_t i = 0; i < ob.m.size(); ++i) {
            auto& m = ob.m[i];
            int k = src->find(m.spec);
            if (k < 0) continue;
            auto& sm = src->m[size_t(k)];
            m.value = sm.value;
            if (!m.spec->info.move_asgn) {
                // the instance itself went over; what is left in the source is moved-out but alive
                m.lineage = sm.lineage;
                auto in = w.find_inst(sa[size_t(k)]);
                VCHECK(in && in->moved, "move_matching_from: the source was not moved out");
                in->moved = false; in->lineage = w.next_uid++;
                sm.lineage = in->lineage;
                count("matching move by construction");
            }
        }
        check_same(ob, a, "move_matching_from");
        check_same(*src, sa, "move_matching_from (source)");
        count("move_matching");
    }

    // ---- moves, seals ----
    void take_over(Obj& to, Obj& from) {
        to.t = from.t; to.m = from.m; to.sealed = from.sealed; to.dom = from.dom;
        from.m.clear(); from.t = &from.dom->d->get_empty_type(); from.sealed = false;
    }
    void check_taken(const char* what, Obj& to, Obj& from, const std::vector<const void*>& a) {
        check_same(to, a, what);
        VCHECK(from.o->empty() && !from.o->sealed() && &from.o->get_type() == &from.dom->d->get_empty_type() && from.o->num_mixins() == 0, what << ": the source is not empty and unsealed afterwards");
        w.verify_obj(from);
    }
    void op_move_ctor() {
        if (w.objs.empty()) return;
        if (int(w.objs.size()) >= c.max_objs) { op_destroy(); return; }
        auto& src = pick_obj();
        bool cc = use_c();
        auto a = addrs(src);
        auto& ob = add_obj(*src.dom, src.res);
        VLOG("O" << ob.idx << " = moved from O" << src.idx << " " << src.list() << (src.sealed ? " sealed" : "") << (cc ? " (C)" : ""));
        exec("move", OK, src.dom, nullptr, cc, true, [&] {
            if (cc) ob.o.reset(object::from_c_handle(dnmx_create_object_usurp(src.o->to_c_hanlde())));
            else ob.o = std::make_unique<object>(std::move(*src.o));
            return ob.o != nullptr;
        }, [](bool) {});
        VCHECK(w.events.empty(), "moving an object touched its mixins");
        if (src.sealed) count("sealed object moved");
        take_over(ob, src);
        check_taken("move", ob, src, a);
        count("move");
        if (ob.m.size() > 1) count("move of 2 or more mixins");
    }
    void op_move_asgn() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj();
        auto& src = s.chance(1, 15) ? ob : pick_obj();
        VLOG("O" << ob.idx << " " << ob.list() << (ob.sealed ? " sealed" : "") << " = move(O" << src.idx << " " << src.list() << (src.sealed ? " sealed" : "") << ")");
        auto a = addrs(src), oa = addrs(ob); auto om = ob.m;
        uint32_t allowed = &src == &ob ? OK : ob.res != src.res ? OBJ : ob.sealed ? OBJ : OK;
        Oc oc = exec("move assign", allowed, ob.dom, nullptr, false, true, [&] { auto& self = *ob.o; self = std::move(*src.o); return true; }, [&](bool) {
            VCHECK(w.events.empty(), "a refused move assignment touched mixins");
            check_same(src, a, "move assign (source)"); after_fail(ob, oa, "move assign");
        });
        if (oc != Oc::ok) { count(ob.res != src.res ? "move between allocators refused" : "change of a sealed object refused"); return; }
        if (&src == &ob) { VCHECK(w.events.empty(), "self-assignment touched mixins"); check_same(ob, oa, "self move assign"); return; }
        check_destroyed("move assign", om, oa);
        if (src.sealed) count("sealed object moved");
        if (!om.empty() && !src.m.empty()) count("move onto a non-empty object");
        take_over(ob, src);
        check_taken("move assign", ob, src, a);
        count("move");
    }
    void op_seal() {
        if (w.objs.empty()) return;
        auto& ob = pick_obj();
        if (s.chance(1, 2)) return; // not too many
        VLOG("seal O" << ob.idx);
        if (use_c()) dnmx_object_seal(ob.o->to_c_hanlde()); else ob.o->seal();
        ob.sealed = true;
        VEQ(dnmx_object_is_sealed(ob.o->to_c_hanlde()), true, "dnmx_object_is_sealed");
        count("seal");
    }
    void op_compare() {
        if (w.objs.empty()) return;
        auto& x = pick_obj(); auto& y = s.chance(1, 8) ? x : pick_obj();
        if (x.dom != y.dom) {
            VCHECK(!x.o->equals(*y.o), "objects of two domains are equal");
            return;
        }
        VLOG("compare O" << x.idx << " " << x.list() << " with O" << y.idx << " " << y.list());
        bool eq = true, err = false; int cmp = 0;
        if (&x != &y) {
            if (x.t != y.t) { eq = false; cmp = model_type_cmp(x.list(), y.list()); }
            else {
                for (size_t i = 0; i < x.m.size(); ++i) {
                    auto& in = x.m[i].spec->info;
                    bool e = in.equals ? World::value_eq(x.m[i].value, y.m[i].value) : in.compare ? World::value_cmp(x.m[i].value, y.m[i].value) == 0 : false;
                    if (!e) eq = false;
                }
                for (size_t i = 0; i < x.m.size() && !cmp; ++i) {
                    if (!x.m[i].spec->info.compare) { err = true; break; }
                    cmp = World::value_cmp(x.m[i].value, y.m[i].value);
                }
                if (!x.m.empty()) count("compare objects of one type");
                if (!x.m.empty() && eq) count("equal objects compared");
                if (err) count("compare without a function");
            }
        }
        w.events.clear();
        VEQ(x.o->equals(*y.o), eq, "equals of O" << x.idx << " and O" << y.idx);
        VEQ(dnmx_object_equals(x.o->to_c_hanlde(), y.o->to_c_hanlde()), eq, "dnmx_object_equals of O" << x.idx << " and O" << y.idx);
        int r = 0;
        Oc oc = capture([&] { r = x.o->compare(*y.o); return true; }, msg);
        VCHECK(oc == (err ? Oc::obj_err : Oc::ok), "compare of O" << x.idx << " and O" << y.idx << ": " << oc_name(oc) << " " << msg);
        if (!err) VEQ(sign(r), cmp, "compare of O" << x.idx << " and O" << y.idx);
        VCHECK(std::as_const(*x.o).to_c_hanlde() == x.o->to_c_hanlde() && object::from_c_handle(std::as_const(*x.o).to_c_hanlde()) == x.o.get(), "const handle of an object");
        auto cr = dnmx_object_compare(std::as_const(*x.o).to_c_hanlde(), y.o->to_c_hanlde());
        VEQ(cr.error == dnmx_result_success, !err, "dnmx_object_compare error");
        if (!err) VEQ(sign(cr.result), cmp, "dnmx_object_compare");
        VCHECK(w.events.empty(), "comparing objects changed them");
        count("compare");
    }
    void poke(Obj& ob, size_t i, int v) {
        auto in = w.find_inst(ob.o->get_at(mixin_index_t(i)));
        VCHECK(in != nullptr, "no instance at the mixin's address");
        in->value = v; ob.m[i].value = v;
    }
    void op_poke() {
        std::vector<Obj*> v; for (auto& o : w.objs) if (!o->m.empty()) v.push_back(o.get());
        if (v.empty()) return;
        auto& ob = *s.pick(v);
        size_t i = s.index(ob.m.size());
        // small steps around the default value, so that equal and nearly equal values occur
        int val = ob.m[i].spec->def_value + int(s.draw(4));
        VLOG("set " << *ob.m[i].spec << " of O" << ob.idx << " to " << val);
        poke(ob, i, val);
        // through the C accessors
        auto h = ob.o->to_c_hanlde();
        auto p = ob.o->get_at(mixin_index_t(i));
        auto& in = ob.m[i].spec->info;
        VCHECK(dnmx_object_get(h, &in) == p && dnmx_object_get_mut(h, &in) == p && dnmx_object_get_at(h, dnmx_mixin_index_t(i)) == p && dnmx_object_get_mut_at(h, dnmx_mixin_index_t(i)) == p, "C access to " << *ob.m[i].spec);
        VCHECK(dnmx_object_has(h, &in), "dnmx_object_has");
        if (uniq_name(*ob.m[i].spec)) VCHECK(dnmx_object_get_by_name(h, in.name) == p && dnmx_object_get_mut_by_name(h, in.name) == p && dnmx_object_has_by_name(h, in.name), "C access by name");
        VCHECK(!dnmx_object_get_at(h, dnmx_mixin_index_t(ob.m.size())) && !dnmx_object_get_mut_at(h, dnmx_mixin_index_t(ob.m.size())), "C access beyond the end");
        VCHECK(dnmx_object_get_type(h) == ob.t && dnmx_object_num_mixins(h) == ob.m.size() && dnmx_object_is_empty(h) == ob.m.empty(), "C object queries");
        VCHECK(dnmx_object_get_domain(h) == ob.dom->d->to_c_hanlde(), "dnmx_object_get_domain");
        if (s.chance(1, 4)) {
            std::ostringstream o;
            util::dbg_dmp(o, *ob.t);
            auto txt = o.str();
            for (auto& m : ob.m) VCHECK(txt.find(std::string(m.spec->nm)) != std::string::npos, "the dump of the type does not name " << q(m.spec->nm));
        }
    }

    // ---------- main loop ----------
    void run() {
        setup();
        const std::vector<uint32_t> wt = {
            c.w_create, c.w_mutate, c.w_gettype, c.w_reset, c.w_mutate_to, c.w_reg, c.w_unreg, c.w_regfeat, c.w_unregfeat, c.w_badreg, c.w_tc, c.w_rule, c.w_foreign, c.w_gc, c.w_cmptypes, c.w_traverse,
            c.w_destroy, c.w_clear, c.w_gradual, c.w_piecewise, c.w_copy, c.w_copy_from, c.w_copy_match, c.w_move_match, c.w_move_ctor, c.w_move_asgn, c.w_seal, c.w_compare, c.w_poke};
        bool obj_side = c.w_create > 0;
        int steps = 0;
        while (steps < 120) {
            Src::Op op(s);
            if (!s.more(uint32_t(c.avg_ops))) break;
            ++steps;
            size_t k = s.weighted(wt);
            switch (k) {
            case 0: op_create(); break;
            case 1: op_mutate(); break;
            case 2: op_gettype(); break;
            case 3: op_reset(); break;
            case 4: op_mutate_to(); break;
            case 5: op_reg(); break;
            case 6: op_unreg(); break;
            case 7: op_regfeat(); break;
            case 8: op_unregfeat(); break;
            case 9: op_badreg(); break;
            case 10: op_tc(); break;
            case 11: op_rule(); break;
            case 12: op_foreign(); break;
            case 13: op_gc(); break;
            case 14: op_cmptypes(); break;
            case 15: op_traverse(); break;
            case 16: op_destroy(); break;
            case 17: op_clear(); break;
            case 18: op_gradual(); break;
            case 19: op_piecewise(); break;
            case 20: op_copy(); break;
            case 21: op_copy_from(); break;
            case 22: op_copy_match(); break;
            case 23: op_move_match(); break;
            case 24: op_move_ctor(); break;
            case 25: op_move_asgn(); break;
            case 26: op_seal(); break;
            case 27: op_compare(); break;
            default: op_poke(); break;
            }
            s.sync();
            if (obj_side) w.verify_world();
            for (auto& d : w.doms) w.verify_dom(*d, false);
            if (c.deep_pct && s.chance(c.deep_pct, 100)) for (auto& d : w.doms) w.verify_dom(*d, true);
        }
        for (auto& d : w.doms) w.verify_dom(*d, true);
        if (c.nontrivial && c.nontrivial(cnt)) s.interesting();
        w.finish();
    }
};

inline void run_machine(Src& s, const Cfg& c) { Machine m(s, c); m.run(); }
}
