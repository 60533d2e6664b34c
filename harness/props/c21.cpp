// C21: what dumps and error messages name.
#include "common.hpp"
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/msg/msg_traits.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/next_impl.hpp>

namespace c21 {
using namespace pt;

DYNAMIX_DECLARE_MSG(c21_text_msg, c21_text, int, (const dynamix::object&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(c21_many_msg, void(dynamix::object&));
DYNAMIX_MAKE_FUNC_TRAITS(c21_text);
DYNAMIX_DEFINE_MSG(c21_text_msg, unicast, c21_text, int, (const dynamix::object&, int));
DYNAMIX_DEFINE_SIMPLE_MSG(c21_many_msg, multicast);

// names carry a token which is not a part of any other: "M3_" and so on, and then arbitrary bytes
// (an exception's text ends at a zero byte: none in the names for messages)
std::string token(vp::Src& s, char kind, int i, bool zero = false) {
    std::string r = kind + std::to_string(i) + "_";
    for (size_t n = s.weighted({4, 2, 1}); n--; ) r += s.chance(1, 5) ? std::string("\xff' \0", 4)[s.index(zero ? 4 : 3)] : "abMFRT{"[s.index(7)];
    return r;
}
size_t count_of(const std::string& text, std::string_view name) {
    size_t n = 0;
    for (size_t p = text.find(name); p != std::string::npos; p = text.find(name, p + 1)) ++n;
    return n;
}
template <typename F> std::string text_of(F&& f) { std::ostringstream o; f(o); return o.str(); }

template <int K> bool tc_at_least(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() >= K; }
bool tc_none(dnmx_type_handle) noexcept { return false; }
struct Mix { bytes name; common_mixin_info info; std::vector<feature_for_mixin> fs; std::vector<int> feats; int reg = -1; };
struct Feat { bytes name; common_feature_info info; bool reg = false; };
struct Rule { bytes name; mutation_rule_info info = {}; uint32_t refs = 0; };
struct Tc { bytes name; type_class info = {}; bool reg = false; };

struct World {
    recres dres;
    std::vector<std::unique_ptr<Feat>> feats;
    std::vector<std::unique_ptr<Mix>> mix;
    std::vector<std::unique_ptr<Rule>> rules;
    std::vector<std::unique_ptr<Tc>> tcs;
    std::vector<std::string> dom_names;
    std::vector<std::unique_ptr<domain>> doms;
    bool dup = false;
    std::string list(const std::vector<int>& v) { std::string o = "{"; for (auto i : v) o += " M" + std::to_string(i); return o + " }"; }
};
void fill(vp::Src& s, World& w, bool zero) {
    static int pl[8];
    int nf = int(s.range(0, 5)), nm = int(s.range(0, 6));
    for (int i = 0; i < nf; ++i) {
        auto f = std::make_unique<Feat>();
        f->name.set(token(s, 'F', i, zero));
        f->info.name = f->name.sv();
        f->info.allow_clashes = true;
        if (s.flip()) f->info.default_payload = pl;
        w.feats.push_back(std::move(f));
    }
    for (int i = 0; i < nm; ++i) {
        auto m = std::make_unique<Mix>();
        m->name.set(token(s, 'M', i, zero));
        m->info.name = m->name.sv();
        m->info.set_size_alignment(uint32_t(s.range(0, 40)), 1u << s.index(5));
        m->info.dependency = s.chance(1, 6);
        if (s.flip()) {
            m->info.init = dnmx_mixin_noop_init_func; 
            if (s.flip()) m->info.copy_init = [](const dnmx_mixin_info*, void*, const void*) -> dnmx_error_return_t { return 0; };
            if (s.flip()) m->info.destroy = dnmx_mixin_common_destroy_func;
        }
        if (s.chance(1, 6)) m->info.force_external = true;
        for (int k = 0; k < nf; ++k) if (s.chance(1, 3)) {
            m->feats.push_back(k);
            feature_for_mixin x = {};
            x.info = &w.feats[k]->info; x.payload = &pl[s.index(8)]; x.bid = int(s.chance(1, 3) ? s.oneof({-1, -3, INT32_MIN, INT32_MAX}) : int(s.index(3))); x.priority = int(s.chance(1, 6) ? s.oneof({INT32_MIN, INT32_MAX}) : int(s.range(-1, 1)));
            m->fs.push_back(x);
        }
        m->info.features = m->fs.data(); m->info.num_features = m->fs.size();
        w.mix.push_back(std::move(m));
    }
}

void dumps(vp::Src& s) {
    World w;
    fill(s, w, true);
    int nm = int(w.mix.size()), nf = int(w.feats.size());
    std::string dn = s.chance(1, 5) ? "" : token(s, 'D', 0, true);
    domain_settings set = domain_settings_builder();
    set.canonicalize_types = s.chance(1, 3); set.allow_duplicate_mixin_names = s.flip(); set.allow_duplicate_feature_names = s.flip();
    bool defalloc = s.chance(1, 4);
    domain d(dn, set, 0, s.flip() ? &w : nullptr, defalloc ? allocator{} : alc(w.dres));
    VLOG("domain " << show(dn) << ", " << nm << " mixins, " << nf << " features");
    // registration with gaps
    std::vector<int> order;
    for (int i = 0; i < nm; ++i) order.push_back(i);
    for (int i = nm; i-- > 1; ) std::swap(order[i], order[s.index(size_t(i) + 1)]);
    for (int i = 0; i < nf; ++i) if (s.chance(1, 4)) { d.register_feature(w.feats[i]->info); w.feats[i]->reg = true; }
    for (int i : order) if (!s.chance(1, 6)) {
        VLOG("M" << i << " " << show(w.mix[i]->name.view()) << " with " << w.mix[i]->feats.size() << " features is registered");
        d.register_mixin(w.mix[i]->info); w.mix[i]->reg = 0;
        for (auto k : w.mix[i]->feats) w.feats[k]->reg = true;
    }
    bool gap = false;
    for (int i = 0; i < nm; ++i) if (w.mix[i]->reg == 0 && s.chance(1, 5)) { VLOG("M" << i << " is unregistered"); d.unregister_mixin(w.mix[i]->info); w.mix[i]->reg = -1; gap = true; }
    for (int k = 0; k < nf; ++k) if (w.feats[k]->reg && s.chance(1, 3)) {
        bool used = false;
        for (auto& m : w.mix) if (m->reg == 0) for (auto f : m->feats) used |= f == k;
        if (used) continue;
        VLOG("F" << k << " is unregistered");
        d.unregister_feature(w.feats[k]->info); w.feats[k]->reg = false; gap = true;
    }
    std::vector<int> reg;
    for (int i = 0; i < nm; ++i) if (w.mix[i]->reg == 0) reg.push_back(i);
    // rules: nothing, or add a mixin
    int nr = int(s.weighted({3, 3, 2, 1}));
    for (int i = 0; i < nr; ++i) {
        auto r = std::make_unique<Rule>();
        r->name.set(token(s, 'R', i, true));
        r->info.name = r->name.sv();
        r->info.order_priority = int(s.range(-2, 2));
        r->info.apply = [](dnmx_type_mutation_handle, uintptr_t) -> error_return_t { return result_success; };
        if (!reg.empty() && s.flip()) {
            r->info.user_data = uintptr_t(&w.mix[s.pick(reg)]->info);
            r->info.apply = [](dnmx_type_mutation_handle h, uintptr_t ud) -> error_return_t { type_mutation::from_c_handle(h)->add_if_lacking(*reinterpret_cast<const mixin_info*>(ud)); return result_success; };
        }
        for (r->refs = uint32_t(s.weighted({1, 3, 1, 1})); false; ) {}
        for (uint32_t k = 0; k < r->refs; ++k) d.add_mutation_rule(r->info);
        w.rules.push_back(std::move(r));
    }
    // type classes
    int nt = int(s.weighted({3, 3, 2, 1}));
    for (int i = 0; i < nt; ++i) {
        auto t = std::make_unique<Tc>();
        t->name.set(token(s, 'T', i, true));
        t->info.name = t->name.sv();
        t->info.matches = s.oneof<bool (*)(dnmx_type_handle) noexcept>({tc_none, tc_at_least<0>, tc_at_least<1>, tc_at_least<2>, tc_at_least<3>});
        d.register_type_class(t->info); t->reg = true;
        if (s.chance(1, 5)) { d.unregister_type_class(t->info); t->reg = false; }
        w.tcs.push_back(std::move(t));
    }
    // types
    auto idx = [&](const mixin_info* m) { for (int i = 0; i < nm; ++i) if (&w.mix[i]->info == m) return i; return -1; };
    auto ids = [&](itlib::span<const mixin_info* const> v) { std::vector<int> r; for (auto m : v) r.push_back(idx(m)); return r; };
    std::vector<const type*> types;
    std::vector<std::pair<std::vector<int>, const type*>> queries;
    while (s.more(4)) {
        vp::Src::Op op(s);
        std::vector<const mixin_info*> q;
        for (auto i : reg) if (s.flip()) q.push_back(&w.mix[i]->info);
        if (q.size() > 1 && s.flip()) std::swap(q.front(), q.back());
        const type& t = d.get_type(q);
        VLOG("get type " << w.list(ids(q)) << " -> " << w.list(ids(t.mixins)));
    }
    if (s.chance(1, 6)) { VLOG("types are collected"); d.garbage_collect_types(); }
    {
        domain_traverse tr(d);
        tr.traverse_types([&](const type& t) { types.push_back(&t); });
        tr.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& t) { queries.push_back({ids(q), &t}); });
    }
    std::vector<object> objs;
    for (auto t : types) for (size_t k = s.weighted({2, 1, 1}); k--; ) if (t->default_constructible()) objs.emplace_back(*t);
    VEQ(types.size(), d.num_types(), "types traversed"); VEQ(queries.size(), d.num_type_queries(), "queries traversed");
    long out_blocks = long(w.dres.out.size());

    // the value after a key: a number, or a boolean in either notation
    auto value = [&](const std::string& text, const std::string& key) {
        size_t p = text.find(key);
        VCHECK(p != std::string::npos, "a dump has no '" << key << "': " << show(text.substr(0, 1500)));
        p += key.size();
        auto v = text.substr(p, text.find_first_of(",\n", p) - p);
        return v == "true" ? std::string("1") : v == "false" ? std::string("0") : v;
    };
    auto field = [&](const std::string& text, const std::string& key, auto want) {
        auto v = value(text, key);
        std::ostringstream o; o << want;
        if (v != o.str()) VFAIL("a dump shows '" << key << v << "' where the value is " << o.str() << ": " << show(text.substr(0, 1500)));
    };
    auto func = [&](const std::string& text, const std::string& key, bool there) { VCHECK((value(text, key) != "none") == there, "a dump shows '" << key << value(text, key) << "': " << show(text.substr(0, 1500))); };
    auto line_of = [&](const std::string& text, std::string_view name) {
        size_t p = text.find(name), b = text.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        return text.substr(b, text.find('\n', p) - b);
    };
    auto has = [&](const std::string& line, const std::string& what) { VCHECK(line.find(what) != std::string::npos, "a dump does not show '" << what << "' in " << show(line)); };
    auto see_mixin = [&](const std::string& text, int i, uint32_t fl) {
        auto& m = w.mix[i]->info;
        auto line = text.substr(0, text.find('\n'));
        has(line, ", " + std::to_string(w.mix[i]->fs.size()) + " features");
        has(line, m.external() ? "external" : "internal");
        VCHECK((line.substr(0, 4) == "dep-") == m.dependency, "a dump of a mixin begins " << show(line));
        if (w.mix[i]->reg == 0) has(line, "id: " + std::to_string(m.iid()) + " "); else has(line, "unregistered");
        if (fl & dnmx_mixin_dmp_ex) {
            field(text, "\n  size: ", m.size); field(text, "\n  alignment: ", m.alignment); field(text, "\n  obj_buf_size: ", m.obj_buf_size);
            field(text, "order_priority: ", m.order_priority); field(text, "force_external: ", m.force_external); field(text, "user_data: ", m.user_data);
            func(text, "\n  init: ", m.init); func(text, "copy_init: ", m.copy_init); func(text, "move_init: ", m.move_init); func(text, "copy_asgn: ", m.copy_asgn);
            func(text, "move_asgn: ", m.move_asgn); func(text, "destroy: ", m.destroy); func(text, "equals: ", m.equals); func(text, "\n  compare: ", m.compare);
        }
        if (fl & dnmx_mixin_dmp_features) for (auto& f : w.mix[i]->fs) has(line_of(text, f.info->name.to_std()), " " + std::to_string(f.bid) + "_bid " + std::to_string(f.priority) + "_prio");
    };
    auto see_feature = [&](const std::string& text, int i) {
        auto& f = w.feats[i]->info;
        auto line = text.substr(0, text.find('\n'));
        if (w.feats[i]->reg) has(line, "id: " + std::to_string(f.iid()) + ","); else has(line, "unregistered");
        field(line, "allow clashes: ", f.allow_clashes); func(line, "default payload: ", f.default_payload);
    };
    auto see_type = [&](const std::string& text, const type& t, uint32_t fl) {
        size_t alive = 0, implemented = 0;
        for (auto& o : objs) alive += &o.get_type() == &t;
        for (int k = 0; k < nf; ++k) {
            size_t n = 0, top = 0; int best = 0;
            for (auto m : t.mixins) for (auto& f : w.mix[idx(m)]->fs) if (f.info == &w.feats[k]->info) {
                if (!n || f.bid > best) { best = f.bid; top = 0; }
                ++n; top += f.bid == best;
            }
            if (!n) continue;
            ++implemented;
            if (fl & dnmx_type_dmp_ftable) has(line_of(text, w.feats[k]->name.view()), "' " + std::to_string(top) + "/" + std::to_string(n));
            if (fl & dnmx_type_dmp_ftable && fl & dnmx_type_dmp_full_ftable) {
                // the lines of its implementers
                size_t at = text.find(w.feats[k]->name.view());
                for (size_t e = 0; e < n; ++e) {
                    at = text.find('\n', at) + 1;
                    auto line = text.substr(at, text.find('\n', at) - at);
                    int found = 0;
                    for (auto m : t.mixins) if (line.find(w.mix[idx(m)]->name.view()) != std::string::npos) for (auto& f : w.mix[idx(m)]->fs) if (f.info == &w.feats[k]->info) { ++found; has(line, " " + std::to_string(f.bid) + "_bid " + std::to_string(f.priority) + "_prio"); }
                    VCHECK(found == 1, "the table of a feature has a line of no implementer: " << show(line));
                }
            }
        }
        if (fl & dnmx_type_dmp_ftable) has(text, "\n  " + std::to_string(implemented) + " features:");
        if (fl & dnmx_type_dmp_matching_queries) { size_t n = 0; for (auto& q : queries) n += q.second == &t; has(text, "\n  " + std::to_string(n) + " matching queries:"); }
        if (fl & dnmx_type_dmp_ex) {
            has(value(text, "\n  features: "), std::to_string(implemented) + "/" + std::to_string(t.ftable_length));
            field(text, "\n  size: ", t.buf_size); field(text, "obj buf size: ", t.object_buffer_size); field(text, "obj buf align: ", t.object_buffer_alignment);
            field(text, "num obj: ", t.num_mixins() ? alive : 0);
            field(text, "default_constructible: ", t.default_constructible()); field(text, "copy_constructible: ", t.copy_constructible()); field(text, "copy_assignable: ", t.copy_assignable());
            field(text, "equality_comparable: ", t.equality_comparable()); field(text, "\n  comparable: ", t.comparable());
        }
    };
    // expected counts
    std::vector<long> em(nm), ef(nf), er(nr), et(nt);
    auto cmp = [&](const std::string& text, const std::string& what) {
        auto one = [&](const char* kind, int i, std::string_view n, long want) {
            long got = long(count_of(text, n));
            if (got != want) VFAIL(what << " names " << kind << i << ' ' << show(n) << ' ' << got << " times instead of " << want << ": " << show(text.substr(0, 1500)));
        };
        for (int i = 0; i < nm; ++i) one("M", i, w.mix[i]->name.view(), em[i]);
        for (int i = 0; i < nf; ++i) one("F", i, w.feats[i]->name.view(), ef[i]);
        for (int i = 0; i < nr; ++i) one("R", i, w.rules[i]->name.view(), er[i]);
        for (int i = 0; i < nt; ++i) one("T", i, w.tcs[i]->name.view(), et[i]);
    };
    auto reset = [&] { em.assign(nm, 0); ef.assign(nf, 0); er.assign(nr, 0); et.assign(nt, 0); };
    auto exp_mixin = [&](int i, uint32_t fl) { ++em[i]; if (fl & dnmx_mixin_dmp_features) for (auto f : w.mix[i]->feats) ++ef[f]; };
    auto exp_type = [&](const type& t, uint32_t fl) {
        auto ms = ids(t.mixins);
        for (auto i : ms) ++em[i];
        if (fl & dnmx_type_dmp_ftable) for (int f = 0; f < nf; ++f) {
            bool impl = false;
            for (auto i : ms) for (auto k : w.mix[i]->feats) if (k == f) { impl = true; if (fl & dnmx_type_dmp_full_ftable) ++em[i]; }
            ef[f] += impl;
        }
        if (fl & dnmx_type_dmp_matching_queries) for (auto& q : queries) if (q.second == &t) for (auto i : q.first) ++em[i];
        if (fl & dnmx_type_dmp_matching_type_classes) for (int i = 0; i < nt; ++i) if (w.tcs[i]->reg && w.tcs[i]->info.matches(&t)) ++et[i];
    };
    auto exp_dom = [&](uint32_t fl) {
        reset();
        if (fl & dnmx_dom_dmp_features) for (int i = 0; i < nf; ++i) ef[i] += w.feats[i]->reg;
        if (fl & dnmx_dom_dmp_mixins) for (auto i : reg) exp_mixin(i, fl);
        if (fl & dnmx_dom_dmp_mutation_rules) for (int i = 0; i < nr; ++i) er[i] += w.rules[i]->refs > 0;
        if (fl & dnmx_dom_dmp_types) for (auto t : types) exp_type(*t, fl);
        if (fl & dnmx_dom_dmp_type_classes) for (int i = 0; i < nt; ++i) et[i] += w.tcs[i]->reg;
        if (fl & dnmx_dom_dmp_type_queries) for (auto& q : queries) { for (auto i : q.first) ++em[i]; for (auto m : q.second->mixins) ++em[idx(m)]; }
    };
    uint32_t some = 0;
    for (uint32_t b : {0x1u, 0x2u, 0x4u, 0x8u, 0x10u, 0x20u, 0x40u, 0x100u, 0x200u, 0x1000u, 0x2000u, 0x4000u, 0x8000u, 0x10000u, 0x100000u}) if (s.flip()) some |= b;
    for (uint32_t fl : {uint32_t(dnmx_dmp_all), uint32_t(dnmx_dmp_min), some}) {
        auto text = text_of([&](std::ostream& o) { util::dbg_dmp(o, d, fl); });
        VLOG("dump with flags " << std::hex << fl);
        exp_dom(fl);
        cmp(text, "the dump of a domain");
        if (!dn.empty()) VCHECK(count_of(text, dn) >= 1, "the dump of a domain does not name it: " << show(text));
        if (fl & dnmx_dom_dmp_settings) for (const char* n : {"canonicalize_types", "allow_duplicate_feature_names", "allow_duplicate_mixin_names"}) {
            size_t p = text.find(n);
            VCHECK(p != std::string::npos, "the dump of a domain does not name the setting " << n);
            bool v = n[0] == 'c' ? set.canonicalize_types : n[16] == 'f' ? set.allow_duplicate_feature_names : set.allow_duplicate_mixin_names;
            auto line = text.substr(p, text.find('\n', p) - p);
            VCHECK((line.find(v ? "true" : "false") != std::string::npos) && line.find(v ? "false" : "true") == std::string::npos, "the dump of a domain shows " << line);
        }
        if (fl & dnmx_dom_dmp_mutation_rules) for (auto& r : w.rules) if (r->refs) {
            size_t p = text.find(r->name.view());
            auto line = text.substr(p, text.find('\n', p) - p);
            VCHECK(line.find(std::to_string(r->refs)) != std::string::npos, "the dump of a rule does not show its " << r->refs << " refs: " << show(line));
        }
        // how many of each
        auto head = [&](uint32_t bit, const char* what, size_t n) {
            if (!(fl & bit)) return;
            std::string h = "## " + std::to_string(n) + " " + what;
            VCHECK(text.find(h) != std::string::npos, "the dump of a domain has no '" << h << "': " << show(text.substr(0, 1500)));
        };
        size_t fcount = 0, mcount = 0, ftop = 0, mtop = 0, tcount = 0;
        {
            domain_traverse tr(d);
            tr.traverse_features([&](const feature_info& f) { ++fcount; ftop = std::max(ftop, size_t(f.iid()) + 1); });
            tr.traverse_mixins([&](const mixin_info& m) { ++mcount; mtop = std::max(mtop, size_t(m.iid()) + 1); });
        }
        for (auto& t : w.tcs) tcount += t->reg;
        head(dnmx_dom_dmp_features, "Features", fcount);
        head(dnmx_dom_dmp_mixins, "Mixins", mcount);
        head(dnmx_dom_dmp_mutation_rules, "Mutation Rules", d.num_mutation_rules());
        head(dnmx_dom_dmp_types, "Types", types.size());
        head(dnmx_dom_dmp_type_classes, "Type Classes", tcount);
        head(dnmx_dom_dmp_type_queries, "Type Queries", queries.size());
        // the unused ids below the last one
        size_t unused = 0, shown = 0;
        if (fl & dnmx_dom_dmp_features) unused += ftop - fcount;
        if (fl & dnmx_dom_dmp_mixins) unused += mtop - mcount;
        for (size_t p = text.find(" empty slots"); p != std::string::npos; p = text.find(" empty slots", p + 1)) {
            size_t b = p;
            while (b && isdigit(static_cast<unsigned char>(text[b - 1]))) --b;
            VCHECK(b < p && p - b < 10, "the dump of a domain has 'empty slots' without a number: " << show(text.substr(0, 1500)));
            auto n = std::stoul(text.substr(b, p - b));
            VCHECK(n > 0, "the dump of a domain shows no empty slots: " << show(text.substr(0, 1500)));
            shown += n;
        }
        VEQ(shown, unused, "empty slots in the dump of a domain");
    }
    // single elements
    for (int i = 0; i < nm; ++i) {
        uint32_t fl = s.oneof<uint32_t>({dmnx_mixin_dmp_all, dnmx_dmp_min, dnmx_mixin_dmp_features, dnmx_mixin_dmp_ex});
        auto text = text_of([&](std::ostream& o) { util::dbg_dmp(o, w.mix[i]->info, fl); });
        reset(); exp_mixin(i, fl);
        cmp(text, "the dump of a mixin");
        see_mixin(text, i, fl);
        if (w.mix[i]->reg == 0 && !dn.empty()) VCHECK(count_of(text, dn) == 1, "the dump of a registered mixin does not name its domain");
    }
    for (int i = 0; i < nf; ++i) { auto text = text_of([&](std::ostream& o) { util::dbg_dmp(o, w.feats[i]->info); }); reset(); ++ef[i]; cmp(text, "the dump of a feature"); see_feature(text, i); }
    for (int i = 0; i < nr; ++i) { auto text = text_of([&](std::ostream& o) { util::dbg_dmp(o, w.rules[i]->info); }); reset(); ++er[i]; cmp(text, "the dump of a rule"); field(text, "prio: ", w.rules[i]->info.order_priority); field(text, "ud: ", w.rules[i]->info.user_data); func(text, "apply: ", true); }
    for (int i = 0; i < nt; ++i) { auto text = text_of([&](std::ostream& o) { util::dbg_dmp(o, w.tcs[i]->info); }); reset(); ++et[i]; cmp(text, "the dump of a type class"); }
    auto one_type = [&](const type& t) {
        uint32_t fl = s.oneof<uint32_t>({dnmx_type_dmp_all, dnmx_dmp_min, dnmx_type_dmp_ftable, dnmx_type_dmp_ftable | dnmx_type_dmp_full_ftable, dnmx_type_dmp_matching_queries, dnmx_type_dmp_matching_type_classes | dnmx_type_dmp_ex});
        auto text = text_of([&](std::ostream& o) { util::dbg_dmp(o, t, fl); });
        reset(); exp_type(t, fl);
        cmp(text, "the dump of a type");
        see_type(text, t, fl);
        if (!dn.empty()) VCHECK(count_of(text, dn) == 1, "the dump of a type does not name its domain");
    };
    for (auto t : types) one_type(*t);
    one_type(d.get_empty_type());
    // nothing changed
    VEQ(types.size(), d.num_types(), "types after dumps"); VEQ(queries.size(), d.num_type_queries(), "queries after dumps");
    {
        domain_traverse tr(d);
        size_t k = 0;
        tr.traverse_types([&](const type& t) { VCHECK(k < types.size() && types[k] == &t, "the types have changed after dumps"); ++k; });
        std::map<const mutation_rule_info*, uint32_t> rr;
        tr.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { VCHECK(rr.emplace(&r, n).second, "a rule is visited twice"); });
        size_t live = 0;
        for (auto& r : w.rules) if (r->refs) { ++live; VEQ(rr[&r->info], r->refs, "references of a rule"); }
        VEQ(rr.size(), live + set.canonicalize_types, "rules visited");
    }
    VEQ(long(w.dres.out.size()), out_blocks, "blocks of the domain after dumps");
    objs.clear();
    if (!types.empty() && (gap || !w.rules.empty() || nf)) s.interesting();
    for (auto& m : w.mix) if (m->reg == 0) d.unregister_mixin(m->info);
    for (auto& f : w.feats) if (f->reg || f->info.id != invalid_feature_id) d.unregister_feature(f->info);
}

// every message names the domain, and the element, and the type where there is one
void messages(vp::Src& s) {
    World w;
    fill(s, w, false);
    int nm = int(w.mix.size());
    std::vector<std::string> dns;
    for (int i = 0; i < 2; ++i) dns.push_back(s.chance(1, 5) ? "" : token(s, 'D', i));
    domain_settings set = domain_settings_builder();
    set.canonicalize_types = s.chance(1, 4);
    domain d(dns[0], set), d2(dns[1], set);
    std::vector<int> reg, unreg, other;
    for (int i = 0; i < nm; ++i) {
        // the features are all of the first domain
        int where = int(s.weighted({5, 2, 2}));
        if (where == 2) { w.mix[i]->fs.clear(); w.mix[i]->feats.clear(); w.mix[i]->info.features = nullptr; w.mix[i]->info.num_features = 0; }
        w.mix[i]->info.dependency = false;
        if (where == 0) { d.register_mixin(w.mix[i]->info); reg.push_back(i); }
        if (where == 1) unreg.push_back(i);
        if (where == 2) { d2.register_mixin(w.mix[i]->info); other.push_back(i); }
        VLOG("M" << i << ' ' << show(w.mix[i]->name.view()) << (where == 0 ? " of the domain" : where == 1 ? " unregistered" : " of the other domain"));
    }
    bool any = false;
    auto named = [&](const std::string& what, const std::string& text, const std::vector<std::string_view>& names, int of_dom = 0) {
        any = true;
        VLOG(what << ": " << show(text));
        if (dns[of_dom].empty()) VCHECK(text.find("unnamed domain") != std::string::npos, what << ": the message does not tell of an unnamed domain: " << show(text));
        else VCHECK(text.find(dns[of_dom]) != std::string::npos, what << ": the message does not name the domain: " << show(text));
        for (auto n : names) VCHECK(text.find(n) != std::string::npos, what << ": the message does not name " << show(n) << ": " << show(text));
    };
    auto owner = [&](const std::string& what, const std::string& text, int of_dom) { // another domain is in the message
        if (dns[size_t(of_dom)].empty()) VCHECK(text.find("unnamed domain") != std::string::npos, what << ": the message does not tell of the other, unnamed domain: " << show(text));
        else VCHECK(text.find(dns[size_t(of_dom)]) != std::string::npos, what << ": the message does not name the other domain: " << show(text));
    };
    // beside those of the type one element is named, which is one of the given ones
    auto concerned = [&](const std::string& what, const std::string& text, const std::vector<std::string_view>& type, const std::vector<std::string_view>& which) {
        std::set<std::string_view> all(type.begin(), type.end());
        int more = 0;
        for (auto n : all) {
            size_t c = count_of(text, n), in = size_t(std::count(type.begin(), type.end(), n));
            VCHECK(c == in || c == in + 1, what << ": the message names " << show(n) << ' ' << c << " times: " << show(text));
            if (c == in) continue;
            ++more;
            VCHECK(std::count(which.begin(), which.end(), n), what << ": the message names " << show(n) << " as the cause: " << show(text));
        }
        VCHECK(more == 1, what << ": the message names " << more << " mixins as the cause: " << show(text));
    };
    auto nm_of = [&](int i) { return w.mix[i]->name.view(); };
    auto nms_of = [&](const std::vector<int>& v) { std::vector<std::string_view> r; for (auto i : v) r.push_back(nm_of(i)); return r; };
    auto query = [&](std::vector<const mixin_info*>& q, std::vector<std::string_view>& n) {
        for (auto i : reg) if (s.flip()) { q.push_back(&w.mix[i]->info); n.push_back(nm_of(i)); }
    };
    auto cleanup = [&] {
        for (auto i : reg) d.unregister_mixin(w.mix[i]->info);
        for (auto i : other) d2.unregister_mixin(w.mix[i]->info);
    };
    while (s.more(4)) {
        vp::Src::Op op(s);
        std::string text;
        std::vector<const mixin_info*> q;
        std::vector<std::string_view> n;
        switch (s.index(18)) {
        case 0: if (!reg.empty()) { int i = s.pick(reg); VOC(outcome([&] { d.register_mixin(w.mix[i]->info); }, &text), oc_domain, "second registration"); named("second registration", text, {nm_of(i)}); } break;
        case 1: if (!other.empty()) { int i = s.pick(other); VOC(outcome([&] { d.register_mixin(w.mix[i]->info); }, &text), oc_domain, "registration in another domain"); named("registration in another domain", text, {nm_of(i)}); owner("registration in another domain", text, 1); } break;
        case 2: if (!reg.empty()) {
            int i = s.pick(reg);
            common_mixin_info x; x.name = w.mix[i]->name.sv();
            VOC(outcome([&] { d.register_mixin(x); }, &text), oc_domain, "registration of a duplicate name"); named("registration of a duplicate name", text, {nm_of(i)});
            break;
        } break;
        case 3: {
            common_mixin_info x; common_feature_info f; type_class t = {};
            int k = int(s.index(3));
            VOC(outcome([&] { if (k == 0) d.register_mixin(x); else if (k == 1) d.register_feature(f); else d.register_type_class(t); }, &text), oc_domain, "registration without a name");
            named("registration without a name", text, {});
            break;
        }
        case 4: { // duplicate feature
            for (auto& f : w.feats) if (f->info.id != invalid_feature_id) {
                common_feature_info x; x.name = f->name.sv();
                VOC(outcome([&] { d.register_feature(x); }, &text), oc_domain, "registration of a duplicate feature"); named("registration of a duplicate feature", text, {f->name.view()});
                VOC(outcome([&] { d.register_feature(f->info); }, &text), oc_domain, "second registration of a feature"); named("second registration of a feature", text, {f->name.view()});
                break;
            }
            break;
        }
        case 5: {
            type_class t = {}; std::string a = token(s, 'T', 0); t.name = dnmx_sv::from_std(a);
            VOC(outcome([&] { d.register_type_class(t); }, &text), oc_domain, "a type class without a function"); named("a type class without a function", text, {a});
            t.matches = tc_none;
            type_class u = t;
            d.register_type_class(t);
            VOC(outcome([&] { d.register_type_class(u); }, &text), oc_domain, "a type class with a duplicate name"); named("a type class with a duplicate name", text, {a});
            d.unregister_type_class(t);
            break;
        }
        case 6: {
            mutation_rule_info r = {}; std::string a = token(s, 'R', 0); r.name = dnmx_sv::from_std(a);
            VOC(outcome([&] { d.add_mutation_rule(r); }, &text), oc_domain, "a rule without a function"); named("a rule without a function", text, {a});
            break;
        }
        case 7: if (!other.empty() || !unreg.empty()) { // a type with a mixin from elsewhere
            query(q, n);
            bool un = other.empty() || (!unreg.empty() && s.flip());
            int i = un ? s.pick(unreg) : s.pick(other);
            q.insert(q.begin() + long(s.index(q.size() + 1)), &w.mix[i]->info);
            n.push_back(nm_of(i));
            VOC(outcome([&] { (void)d.get_type(q); }, &text), un ? oc_type : oc_domain, "a type of a foreign mixin"); named("a type of a foreign mixin", text, n);
            concerned("a type of a foreign mixin", text, n, {nm_of(i)});
            if (!un) owner("a type of a foreign mixin", text, 1);
        } break;
        case 8: if (!reg.empty()) { // duplicates
            query(q, n);
            int i = s.pick(reg);
            while (std::count(q.begin(), q.end(), &w.mix[i]->info) < 2) q.insert(q.begin() + long(s.index(q.size() + 1)), &w.mix[i]->info);
            n.push_back(nm_of(i));
            VOC(outcome([&] { (void)d.get_type(q); }, &text), oc_type, "a type with a duplicate"); named("a type with a duplicate", text, n);
            if (!set.canonicalize_types) { std::vector<std::string_view> t; for (auto m : q) t.push_back(m->name.to_std()); concerned("a type with a duplicate", text, t, {nm_of(i)}); }
        } break;
        case 9: { // a failing rule
            mutation_rule_info r = {}; std::string a = token(s, 'R', 0); r.name = dnmx_sv::from_std(a);
            int code = int(s.range(1, 9));
            r.user_data = uintptr_t(code);
            r.apply = [](dnmx_type_mutation_handle, uintptr_t ud) -> error_return_t { return error_return_t(ud); };
            query(q, n); n.push_back(a);
            std::string cs = std::to_string(code); n.push_back(cs);
            d.add_mutation_rule(r);
            VOC(outcome([&] { (void)d.get_type(q); }, &text), oc_type, "a failing rule"); named("a failing rule", text, n);
            d.remove_mutation_rule(r);
            break;
        }
        case 10: { // a mutation of another domain
            type_mutation m(d2);
            for (auto i : other) if (s.flip()) { m.add(w.mix[i]->info); n.push_back(nm_of(i)); }
            VOC(outcome([&] { (void)d.get_type(std::move(m)); }, &text), oc_domain, "another domain's mutation"); named("another domain's mutation", text, n);
            if (!dns[1].empty()) named("another domain's mutation", text, {dns[1]});
            break;
        }
        case 11: { // unknown names
            type_mutation m(d);
            std::string a = token(s, 'X', 0);
            for (auto i : reg) if (s.flip()) { m.add(w.mix[i]->info); n.push_back(nm_of(i)); }
            n.push_back(a);
            int k = int(s.index(3));
            VOC(outcome([&] { if (k == 0) m.add(a); else if (k == 1) m.add_if_lacking(a); else m.to_back(a); }, &text), oc_type, "an unknown name in a mutation"); named("an unknown name in a mutation", text, n);
            break;
        }
        case 12: { // unknown type class
            for (auto i : reg) if (s.flip()) { q.push_back(&w.mix[i]->info); n.push_back(nm_of(i)); }
            auto& t = d.get_type(q);
            std::string a = token(s, 'X', 0);
            n.push_back(a);
            VOC(outcome([&] { (void)t.is_of(a); }, &text), oc_type, "an unknown type class"); named("an unknown type class", text, n);
            break;
        }
        case 13: if (!reg.empty()) { // objects without functions
            for (auto i : reg) { q.push_back(&w.mix[i]->info); n.push_back(nm_of(i)); }
            auto& t = d.get_type(q);
            std::vector<int> noinit, nocopy;
            for (auto i : reg) { if (!w.mix[i]->info.init) noinit.push_back(i); if (!w.mix[i]->info.copy_init) nocopy.push_back(i); }
            if (!noinit.empty()) {
                VOC(outcome([&] { object o(t); }, &text), oc_object, "an object without default construction");
                named("an object without default construction", text, n); concerned("an object without default construction", text, n, nms_of(noinit));
                object e(d);
                VOC(outcome([&] { e.reset_type(t); }, &text), oc_object, "reset to a type without default construction"); named("reset to a type without default construction", text, n); concerned("reset to a type without default construction", text, n, nms_of(noinit));
            }
            else {
                object o(t);
                if (!nocopy.empty()) { VOC(outcome([&] { auto c = o.copy(); }, &text), oc_object, "a copy without copy construction"); named("a copy without copy construction", text, n); concerned("a copy without copy construction", text, n, nms_of(nocopy)); }
                object p(t);
                VOC(outcome([&] { p.copy_from(o); }, &text), oc_object, "an assignment without copy assignment"); named("an assignment without copy assignment", text, n); concerned("an assignment without copy assignment", text, n, nms_of(reg));
                VOC(outcome([&] { (void)o.compare(p); }, &text), oc_object, "a comparison without functions"); named("a comparison without functions", text, n); concerned("a comparison without functions", text, n, nms_of(reg));
                o.seal();
                VOC(outcome([&] { o.clear(); }, &text), oc_object, "clear of a sealed object"); named("clear of a sealed object", text, n);
                VOC(outcome([&] { o.reset_type(d.get_empty_type()); }, &text), oc_object, "change of a sealed object"); named("change of a sealed object", text, n);
            }
        } break;
        case 14: { // an error of a function of a mixin
            static int failing, code;
            failing = int(s.index(3)); code = int(s.range(1, 99));
            common_mixin_info x; std::string xn = token(s, 'M', 22); x.name = dnmx_sv::from_std(xn);
            x.init = [](const mixin_info*, void*) -> error_return_t { return failing == 0 ? code : 0; };
            x.copy_init = [](const mixin_info*, void*, const void*) -> error_return_t { return failing == 1 ? code : 0; };
            x.copy_asgn = [](const mixin_info*, void*, const void*) -> error_return_t { return failing == 2 ? code : 0; };
            d.register_mixin(x);
            std::vector<const mixin_info*> g; // others which do what is asked
            for (auto i : reg) { auto& in = w.mix[i]->info; if (in.init && in.copy_init && in.copy_asgn && s.flip()) { g.push_back(&in); n.push_back(nm_of(i)); } }
            g.insert(g.begin() + long(s.index(g.size() + 1)), &x); n.push_back(xn);
            {
                auto& t = d.get_type(g);
                std::string what = failing == 0 ? "a failing init" : failing == 1 ? "a failing copy init" : "a failing copy assignment";
                auto cs = std::to_string(code);
                if (failing == 0) {
                    bool empty_first = s.flip();
                    VOC(outcome([&] { if (empty_first) { object o(d); o.reset_type(t); } else object o(t); }, &text), oc_object, what);
                }
                else {
                    object o(t);
                    int how = failing == 1 ? int(s.index(2)) : 2 + int(s.index(2));
                    VOC(outcome([&] {
                        if (how == 0) (void)o.copy();
                        else if (how == 1) { object p(d); p.copy_from(o); }
                        else { object p(t); if (how == 2) p.copy_from(o); else p.copy_matching_from(o); }
                    }, &text), oc_object, what);
                }
                auto nn = n; nn.push_back(cs);
                named(what, text, nn);
                concerned(what, text, n, {xn});
            }
            d.unregister_mixin(x);
            break;
        }
        case 15: { // unregistration of what is not the domain's
            if (other.empty() && unreg.empty()) break;
            bool un = other.empty() || (!unreg.empty() && s.flip());
            int i = un ? s.pick(unreg) : s.pick(other);
            VOC(outcome([&] { d.unregister_mixin(w.mix[i]->info); }, &text), oc_domain, "unregistration of a foreign mixin"); named("unregistration of a foreign mixin", text, {nm_of(i)});
            if (!un) owner("unregistration of a foreign mixin", text, 1);
            common_feature_info f; std::string a = token(s, 'F', 9); f.name = dnmx_sv::from_std(a);
            VOC(outcome([&] { d.unregister_feature(f); }, &text), oc_domain, "unregistration of a foreign feature"); named("unregistration of a foreign feature", text, {a});
            break;
        }
        case 16: { // messages
            for (auto i : reg) if (w.mix[i]->info.init && s.flip()) { q.push_back(&w.mix[i]->info); n.push_back(nm_of(i)); }
            object o(d.get_type(q));
            int how = int(s.index(2));
            VOC(outcome([&] { if (how) (void)c21_text(o, 1); else c21_many_msg::call(o); }, &text), oc_feature, "a message which is not implemented");
            n.push_back(how ? "c21_text_msg" : "c21_many_msg");
            named("a message which is not implemented", text, n);
            break;
        }
        default: { // clashes
            common_feature_info f; std::string a = token(s, 'F', 8); f.name = dnmx_sv::from_std(a);
            static int pl;
            feature_for_mixin fm = {}; fm.info = &f; fm.payload = &pl;
            common_mixin_info x[2]; std::string xn[2] = {token(s, 'M', 20), token(s, 'M', 21)};
            for (int i = 0; i < 2; ++i) { x[i].name = dnmx_sv::from_std(xn[i]); x[i].features = &fm; x[i].num_features = 1; d.register_mixin(x[i]); }
            query(q, n);
            for (int i = 0; i < 2; ++i) { q.insert(q.begin() + long(s.index(q.size() + 1)), &x[i]); n.push_back(xn[i]); }
            n.push_back(a);
            VOC(outcome([&] { (void)d.get_type(q); }, &text), oc_type, "a clash"); named("a clash", text, n);
            for (int i = 0; i < 2; ++i) VEQ(count_of(text, xn[i]), 2u, "a clash: how often the message names " << show(xn[i]));
            for (auto m : q) if (m != x && m != x + 1) VEQ(count_of(text, m->name.to_std()), 1u, "a clash: how often the message names " << show(m->name.to_std()));
            for (int i = 0; i < 2; ++i) d.unregister_mixin(x[i]);
            d.unregister_feature(f);
            break;
        }
        }
    }
    if (any && nm) s.interesting();
    cleanup();
    for (auto& f : w.feats) if (f->info.id != invalid_feature_id) d.unregister_feature(f->info);
}

vp::Reg r1("C21", vp::Part{"dump texts", "random domains (mixins and features registered with gaps, rules with references, type classes, types and queries) and flags are dumped: the occurrences of each element's name in the text are counted and compared with those the content of the domain requires, elements are dumped alone, and the domain is unchanged; non-trivial: there are types, and features, rules or gaps", dumps, 150000, 6000000});
vp::Reg r2("C21", vp::Part{"messages", "random refused operations: the message of the exception names the domain (or says it is unnamed), the elements, and the mixins of the type; non-trivial: an operation is refused in a domain with mixins", messages, 150000, 8000000});
}
