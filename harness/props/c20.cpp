// C20: one domain, several threads. Under chosen schedules: every lock of the domain is a point where another thread may
// go on, and the history has to be that of some one-at-a-time order. With threads as they come: under ThreadSanitizer.
#include "common.hpp"
#include <itlib/data_mutex.hpp>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <optional>
#include <thread>

namespace c20 {
using namespace pt;
using List = std::vector<int>;

// ---------------------------------------------------------------- schedules
struct Sched {
    struct Th { bool finished = false; itlib::dm_state* want = nullptr; bool unique = false; std::condition_variable cv; };
    std::mutex m;
    std::condition_variable done;
    std::vector<std::unique_ptr<Th>> th;
    vp::Src& s;
    int current = -1;
    bool free_run = false;
    uint64_t clock = 0, progress = 0;
    int switches = 0, blocked = 0, inside = 0, after = 0;
    explicit Sched(vp::Src& s, int n) : s(s) { for (int i = 0; i < n; ++i) th.push_back(std::make_unique<Th>()); }

    bool can(Th& t) const {
        if (t.finished) return false;
        if (!t.want) return true;
        return t.unique ? !t.want->writer && !t.want->readers : !t.want->writer;
    }
    int choose(int me) {
        std::vector<int> others;
        for (int i = 0; i < int(th.size()); ++i) if (i != me && can(*th[size_t(i)])) others.push_back(i);
        if (me >= 0 && can(*th[size_t(me)])) {
            if (!others.empty() && s.chance(2, 5)) { ++switches; return others[s.index(others.size())]; }
            return me;
        }
        if (others.empty()) return -1;
        if (me >= 0 && !th[size_t(me)]->finished) ++blocked;
        return others[s.index(others.size())];
    }
    // lets some thread go on, returns when it is this one
    void pass(std::unique_lock<std::mutex>& l, int me) {
        ++progress;
        int n = choose(me);
        if (n < 0) {
            for (auto& t : th) if (!t->finished) {
                s.soft_fail("deadlock: no thread can get the lock it asks for");
                abort();
            }
            current = -1;
            done.notify_all();
            return;
        }
        if (n == me) return;
        current = n;
        th[size_t(n)]->cv.notify_all();
        if (me >= 0 && !th[size_t(me)]->finished) th[size_t(me)]->cv.wait(l, [&] { return free_run || current == me; });
    }
    struct Hook : itlib::dm_hook {
        Sched& d; int me;
        int held = 0; // locks of this thread
        bool yields = true;
        Hook(Sched& d, int me) : d(d), me(me) {}
        void acquire(itlib::dm_state& st, bool unique) override {
            std::unique_lock<std::mutex> l(d.m);
            if (d.free_run) return;
            Th& t = *d.th[size_t(me)];
            t.want = &st; t.unique = unique;
            d.pass(l, me);
            if (d.free_run) return;
            t.want = nullptr;
            ++held;
            if (unique) st.writer = true; else ++st.readers;
        }
        // the domain, while it holds a lock, calls something of ours: those who need no such lock may go on
        // (without a lock there is nothing to see which could not be seen at the next one)
        void point() {
            std::unique_lock<std::mutex> l(d.m);
            if (d.free_run || !held || !d.s.chance(1, 2)) return;
            ++d.inside;
            d.pass(l, me);
        }
        void released(itlib::dm_state& st, bool unique) noexcept override {
            std::unique_lock<std::mutex> l(d.m);
            if (d.free_run) return;
            if (unique) st.writer = false; else --st.readers;
            --held;
            if (!held && yields && d.s.chance(1, 4)) { ++d.after; d.pass(l, me); } // what it does without the lock, others may see undone
        }
    };
    // between calls: a thread which takes no lock in its next one has no other place to wait at
    static void between() {
        auto h = static_cast<Hook*>(itlib::dm_cur_hook);
        if (!h) return;
        std::unique_lock<std::mutex> l(h->d.m);
        if (!h->d.free_run) h->d.pass(l, h->me);
    }
    // the harness looks at what the call gives when it is over: until then others may change it
    static void yields(bool y) { if (auto h = itlib::dm_cur_hook) static_cast<Hook*>(h)->yields = y; }
    static void point() { if (auto h = itlib::dm_cur_hook) static_cast<Hook*>(h)->point(); }
    uint64_t tick() { std::unique_lock<std::mutex> l(m); return ++clock; }
    // false: the threads could not be held back by their locks
    bool run(const std::vector<std::function<void()>>& progs) {
        std::vector<std::thread> ts;
        for (int i = 0; i < int(progs.size()); ++i) ts.emplace_back([this, i, &progs] {
            Hook h(*this, i);
            {
                std::unique_lock<std::mutex> l(m);
                th[size_t(i)]->cv.wait(l, [&] { return free_run || current == i; });
            }
            itlib::dm_cur_hook = &h;
            progs[size_t(i)]();
            itlib::dm_cur_hook = nullptr;
            std::unique_lock<std::mutex> l(m);
            th[size_t(i)]->finished = true;
            if (!free_run) pass(l, i); else done.notify_all();
        });
        {
            std::unique_lock<std::mutex> l(m);
            pass(l, -1);
            auto all = [&] { for (auto& t : th) if (!t->finished) return false; return true; };
            uint64_t last = progress;
            while (!all()) {
                if (done.wait_for(l, std::chrono::seconds(4), all)) break;
                if (progress == last && !free_run) { free_run = true; for (auto& t : th) t->cv.notify_all(); }
                last = progress;
            }
        }
        for (auto& t : ts) t.join();
        return !free_run;
    }
};

struct lockres : recres {
    std::mutex m;
    void* do_allocate(size_t n, size_t a) override { Sched::point(); std::lock_guard<std::mutex> l(m); return recres::do_allocate(n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { { std::lock_guard<std::mutex> l(m); recres::do_deallocate(p, n, a); } Sched::point(); }
    bool has(const void* p) { std::lock_guard<std::mutex> l(m); return out.count(const_cast<void*>(p)) != 0; }
};

// ---------------------------------------------------------------- the elements
// m0..m4 stay registered; m1 is a dependency; m0 and m2 clash on F0
// m5, m6 (of one name) and m7 come and go; m7 brings F3 and F4, F4 has the name of F1
// F0 stays; F1 and F2 (of one name) come and go
constexpr int NM = 8, NF = 5, NR = 5, NTC = 3, STABLE = 5;
const char* const mix_names[NM] = {"m0", "m1", "m2", "m3", "m4", "v", "v", "w"};
const char* const feat_names[NF] = {"F0", "g", "g", "F3", "g"};
const char* const tc_names[NTC] = {"t0", "t", "t"};
struct World {
    mixin_info mix[NM];
    feature_info feat[NF];
    feature_for_mixin fs0[1], fs2[1], fs7[2];
    mutation_rule_info rules[NR];
    type_class tcs[NTC];
    int payload = 0;
    World();
    int mix_of(const mixin_info* p) const { return p >= mix && p < mix + NM ? int(p - mix) : -2; }
    int feat_of(const feature_info* p) const { return p >= feat && p < feat + NF ? int(p - feat) : -2; }
    int tc_of(const type_class* p) const { return p >= tcs && p < tcs + NTC ? int(p - tcs) : -2; }
    int rule_of(const mutation_rule_info* p) const { return p >= rules && p < rules + NR ? int(p - rules) : NR; }
    List list_of(itlib::span<const mixin_info* const> l) const { List r; for (auto p : l) r.push_back(mix_of(p)); return r; }
};
World* W;
constexpr int rule_prio[NR] = {0, 5, 10, -5, 7};
error_return_t apply_rule(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& mut = *type_mutation::from_c_handle(h);
    auto& m = W->mix;
    Sched::point();
    switch (ud) {
    case 0: if (mut.has(m[0])) mut.add_if_lacking("m1"); break;
    case 1: mut.remove(m[2]); break;
    case 2: if (mut.has(m[3])) { mut.remove(m[3]); mut.add_if_lacking(m[4]); } break;
    case 3: if (mut.has(m[0])) mut.to_back(m[0]); break;
    case 4: if (mut.has(m[2])) return 17; break;
    }
    return result_success;
}
World::World() {
    for (int i = 0; i < NF; ++i) {
        feat[i] = dnmx_make_feature_info();
        feat[i].name = dnmx_make_sv_len(feat_names[i], strlen(feat_names[i]));
        feat[i].allow_clashes = i != 0;
    }
    auto ffm = [&](feature_info& f, int bid) { feature_for_mixin r{}; r.info = &f; r.payload = &payload; r.bid = bid; return r; };
    fs0[0] = ffm(feat[0], 0); fs2[0] = ffm(feat[0], 0); fs7[0] = ffm(feat[3], 0); fs7[1] = ffm(feat[4], 1);
    for (int i = 0; i < NM; ++i) {
        auto& m = mix[i];
        m = dnmx_make_mixin_info();
        m.name = dnmx_make_sv_len(mix_names[i], strlen(mix_names[i]));
        m.set_size_alignment(i == 4 ? 0 : 4 * byte_size_t(i + 1), i == 4 ? 0 : 4);
        m.init = [](const mixin_info* i, void* p) -> error_return_t { memset(p, int(i - W->mix), i->size); return result_success; };
        m.copy_init = [](const mixin_info* i, void* p, const void* o) -> error_return_t { memcpy(p, o, i->size); return result_success; };
        m.move_init = [](const mixin_info* i, void* p, void* o) noexcept { memcpy(p, o, i->size); };
        m.dependency = i == 1;
    }
    mix[3].force_external = true;
    mix[0].features = fs0; mix[0].num_features = 1;
    mix[2].features = fs2; mix[2].num_features = 1;
    mix[7].features = fs7; mix[7].num_features = 2;
    static const char* const names[NR] = {"r0", "r1", "r2", "r3", "r4"};
    for (int i = 0; i < NR; ++i) {
        rules[i] = {};
        rules[i].name = dnmx_make_sv_len(names[i], 2);
        rules[i].apply = apply_rule;
        rules[i].user_data = uintptr_t(i);
        rules[i].order_priority = rule_prio[i];
    }
    for (int i = 0; i < NTC; ++i) { tcs[i].name = dnmx_make_sv_len(tc_names[i], strlen(tc_names[i])); tcs[i].matches = [](dnmx_type_handle) noexcept { return true; }; }
}

// what the rules make of a list; nothing: an error
std::optional<List> settle(List l, const std::map<int, uint32_t>& rules) {
    std::vector<int> order;
    for (auto& r : rules) order.push_back(r.first);
    auto prio = [](int r) { return r == NR ? INT32_MAX : rule_prio[r]; };
    std::sort(order.begin(), order.end(), [&](int a, int b) { return prio(a) != prio(b) ? prio(a) < prio(b) : a < b; });
    auto find = [](List& l, int v) { return std::find(l.begin(), l.end(), v); };
    l.erase(std::remove(l.begin(), l.end(), 1), l.end());
    List last = l;
    for (size_t i = 0; ; ++i) {
        for (int r : order) {
            auto has = [&](int v) { return find(l, v) != l.end(); };
            switch (r) {
            case 0: if (has(0) && !has(1)) l.push_back(1); break;
            case 1: if (has(2)) l.erase(find(l, 2)); break;
            case 2: if (has(3)) { l.erase(find(l, 3)); if (!has(4)) l.push_back(4); } break;
            case 3: if (has(0)) { auto f = find(l, 0); std::rotate(f, f + 1, l.end()); } break;
            case 4: if (has(2)) return {}; break;
            case NR: std::stable_sort(l.begin(), l.end()); break;
            }
        }
        if (l == last) return l;
        if (i == 5 || i == order.size()) return {};
        last = l;
    }
}
bool bad_list(const List& l) {
    for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) return true;
    auto has = [&](int v) { return std::find(l.begin(), l.end(), v) != l.end(); };
    return has(0) && has(2);
}
std::string show(const List& l) { std::string r = "["; for (int i : l) r += (r.size() > 1 ? " " : "") + std::to_string(i); return r + "]"; }

// ---------------------------------------------------------------- histories
enum Kind { k_get_span, k_get_mut, k_gc, k_add_rule, k_rem_rule, k_reg_mix, k_unreg_mix, k_reg_feat, k_unreg_feat, k_mix_name, k_mix_id, k_feat_name,
    k_feat_id, k_num_types, k_num_rules, k_reg_tc, k_unreg_tc, k_get_tc, k_mk_obj, k_del_obj, k_snapshot };
const char* const kind_names[] = {"get_type(span)", "get_type(mutation)", "garbage_collect_types", "add_mutation_rule", "remove_mutation_rule", "register_mixin",
    "unregister_mixin", "register_feature", "unregister_feature", "get_mixin_info(name)", "get_mixin_info(id)", "get_feature_info(name)", "get_feature_info(id)",
    "num_types", "num_mutation_rules", "register_type_class", "unregister_type_class", "get_type_class", "object of", "destroy object", "traverse"};
struct Op {
    int kind = 0, a = 0;
    List list;
    // observed
    uint64_t t0 = 0, t1 = 0;
    int oc = 0;
    long num = 0;
    const void* ptr = nullptr;
    bool loose = false; // a collection while objects are destroyed: it may have looked at their types before or after that
    bool any_id = false; // the element got its id while others gave it one or took it
    bool gone = false; // the type of the result is collected before it could be looked at
    List got;
    std::string snap;
    std::string str() const {
        std::string r = kind_names[kind];
        if (kind == k_get_span || kind == k_get_mut || kind == k_mk_obj) {
            r += " " + show(list) + " -> ";
            if (oc == oc_ok) { char b[32]; snprintf(b, sizeof b, " at %p", ptr); r += (gone ? "?" : show(got)) + b; }
        }
        else if (kind != k_gc && kind != k_num_types && kind != k_num_rules && kind != k_snapshot && kind != k_del_obj) r += " " + std::to_string(a) + " -> ";
        if (oc != oc_ok) r += oc_name(oc);
        else if (kind == k_snapshot) r += ": " + snap;
        else if (kind >= k_reg_mix && kind <= k_get_tc) r += " " + std::to_string(num);
        return r;
    }
};

// the domain as one thread sees it
struct Model {
    std::vector<int> mix, feat, tc; // slots, -1: free
    std::map<int, uint32_t> rules;
    struct Tp { const void* ptr; long objs = 0; };
    std::map<List, Tp> types;
    std::vector<std::vector<List>> objs; // per thread

    std::string key() const {
        std::string k;
        auto put = [&](long v) { k.append(reinterpret_cast<const char*>(&v), sizeof v); };
        auto vec = [&](const std::vector<int>& v) { put(long(v.size())); for (int i : v) put(i); };
        vec(mix); vec(feat); vec(tc);
        put(long(rules.size())); for (auto& r : rules) { put(r.first); put(r.second); }
        for (auto& t : types) { vec(t.first); put(long(t.second.ptr)); put(t.second.objs); }
        return k;
    }
    static int slot(const std::vector<int>& v, int e) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == e) return int(i); return -1; }
    static int named(const std::vector<int>& v, const char* const* names, const char* n) { for (int e : v) if (e >= 0 && !strcmp(names[e], n)) return e; return -1; }
    static int reg(std::vector<int>& v, const char* const* names, int e) {
        if (slot(v, e) >= 0 || named(v, names, names[e]) >= 0) return -1;
        for (size_t i = 0; i < v.size(); ++i) if (v[i] < 0) { v[i] = e; return int(i); }
        v.push_back(e);
        return int(v.size()) - 1;
    }
    // the type of a list: oc
    int get(const List& l, const Op& o, List& out) {
        auto f = settle(l, rules);
        if (!f) return oc_type;
        if (!types.count(*f)) {
            for (int m : *f) if (slot(mix, m) < 0) return oc_type;
            if (bad_list(*f)) return oc_type;
        }
        out = *f;
        if (f->empty()) return oc_ok;
        if (o.oc == oc_ok && !types.count(*f)) types[*f] = {o.ptr, 0};
        return oc_ok;
    }
    std::string snap() const {
        std::ostringstream o;
        o << "mixins";
        for (int m : mix) if (m >= 0) o << " " << m;
        o << ", features";
        for (int f : feat) if (f >= 0) o << " " << f;
        o << ", classes";
        std::set<int> t; for (int c : tc) if (c >= 0) t.insert(c);
        for (int c : t) o << " " << c;
        o << ", rules";
        std::vector<std::pair<int, uint32_t>> rs(rules.begin(), rules.end());
        for (auto& r : rs) o << " " << r.first << "x" << r.second;
        o << ", types";
        for (auto& tp : types) o << " " << show(tp.first) << "x" << tp.second.objs;
        return o.str();
    }
    // could op have been next?
    bool step(const Op& o, int thread, const void* empty_type) {
        auto oc = [&](int want) { return o.oc == want; };
        switch (o.kind) {
        case k_get_span: case k_get_mut: case k_mk_obj: {
            List l;
            if (!oc(get(o.list, o, l))) return false;
            if (o.oc != oc_ok) return true;
            if (!o.gone && o.got != l) return false;
            if (l.empty()) { if (o.ptr != empty_type) return false; }
            else if (types[l].ptr != o.ptr) return false;
            if (o.kind == k_mk_obj) { objs[size_t(thread)].push_back(l); if (!l.empty()) ++types[l].objs; }
            return true;
        }
        case k_del_obj: {
            auto& v = objs[size_t(thread)];
            if (v.empty()) return true;
            size_t i = size_t(o.a) % v.size();
            if (!v[i].empty()) --types[v[i]].objs;
            v.erase(v.begin() + long(i));
            return true;
        }
        case k_gc: for (auto i = types.begin(); i != types.end(); ) { if (i->second.objs) ++i; else i = types.erase(i); } return oc(oc_ok);
        case k_add_rule: ++rules[o.a]; return oc(oc_ok);
        case k_rem_rule: { auto i = rules.find(o.a); if (i != rules.end() && !--i->second) rules.erase(i); return oc(oc_ok); }
        case k_reg_mix: {
            if (o.a == 7) for (int f : {3, 4}) if (slot(feat, f) < 0 && reg(feat, feat_names, f) < 0) return oc(oc_domain);
            int r = reg(mix, mix_names, o.a);
            if (r < 0) return oc(oc_domain);
            return oc(oc_ok) && (o.any_id || o.num == r);
        }
        case k_unreg_mix: {
            int i = slot(mix, o.a);
            if (i < 0) return oc(oc_domain);
            for (auto t = types.begin(); t != types.end(); ) { if (std::find(t->first.begin(), t->first.end(), o.a) != t->first.end()) t = types.erase(t); else ++t; }
            mix[size_t(i)] = -1;
            return oc(oc_ok) && (o.any_id || o.num == long(dnmx_invalid_id));
        }
        case k_reg_feat: { int r = reg(feat, feat_names, o.a); if (r < 0) return oc(oc_domain); return oc(oc_ok) && (o.any_id || o.num == r); }
        case k_unreg_feat: { int i = slot(feat, o.a); if (i < 0) return oc(oc_domain); feat[size_t(i)] = -1; return oc(oc_ok) && (o.any_id || o.num == long(dnmx_invalid_id)); }
        case k_mix_name: return oc(oc_ok) && o.num == named(mix, mix_names, mix_names[o.a]);
        case k_feat_name: return oc(oc_ok) && o.num == named(feat, feat_names, feat_names[o.a]);
        case k_get_tc: return oc(oc_ok) && o.num == named(tc, tc_names, tc_names[o.a]);
        case k_mix_id: return oc(oc_ok) && o.num == (size_t(o.a) < mix.size() ? mix[size_t(o.a)] : -1);
        case k_feat_id: return oc(oc_ok) && o.num == (size_t(o.a) < feat.size() ? feat[size_t(o.a)] : -1);
        case k_num_types: return oc(oc_ok) && o.num == long(types.size());
        case k_num_rules: return oc(oc_ok) && o.num == long(rules.size());
        case k_reg_tc: {
            if (named(tc, tc_names, tc_names[o.a]) >= 0) return oc(oc_domain);
            reg(tc, tc_names, o.a);
            return oc(oc_ok);
        }
        case k_unreg_tc: { int i = slot(tc, o.a); if (i >= 0) tc[size_t(i)] = -1; return oc(oc_ok); }
        case k_snapshot: return oc(oc_ok) && o.snap == snap();
        }
        return false;
    }
};

// is there an order of the calls with these results, each between its start and its end?
struct Linear {
    std::vector<std::vector<Op>> h;
    const void* empty;
    std::unordered_set<std::string> seen;
    long nodes = 0;
    size_t best = 0; // how many calls could be put in order
    std::string best_key;
    int go(const Model& m, std::vector<size_t>& pos) { // 1 yes, 0 no, -1 not decided
        size_t done = 0, all = 0;
        for (size_t i = 0; i < h.size(); ++i) { done += pos[i]; all += h[i].size(); }
        if (done > best) best = done;
        if (done == all) return 1;
        if (++nodes > 300000) return -1;
        std::string k = m.key();
        for (size_t p : pos) k += char(p);
        if (!seen.insert(k).second) return 0;
        uint64_t first_end = UINT64_MAX;
        for (size_t i = 0; i < h.size(); ++i) if (pos[i] < h[i].size()) first_end = std::min(first_end, h[i][pos[i]].t1);
        for (size_t i = 0; i < h.size(); ++i) {
            if (pos[i] == h[i].size()) continue;
            auto& o = h[i][pos[i]];
            if (o.t0 > first_end) continue;
            Model c = m;
            std::vector<std::pair<List, Model::Tp>> dead;
            if (o.loose) for (auto& t : m.types) if (!t.second.objs && dead.size() < 6) dead.push_back(t);
            if (!c.step(o, int(i), empty)) continue;
            ++pos[i];
            int r = 0;
            for (unsigned kept = 0; !r && kept < 1u << dead.size(); ++kept) {
                Model k = c;
                for (size_t j = 0; j < dead.size(); ++j) if (kept >> j & 1) k.types.insert(dead[j]);
                r = go(k, pos);
            }
            --pos[i];
            if (r) return r;
        }
        return 0;
    }
};

struct Sys {
    World w;
    lockres res;
    std::unique_ptr<domain> dom;
    std::vector<std::vector<std::unique_ptr<object>>> objs;
    Sched* sched = nullptr;

    explicit Sys(bool canonical, size_t threads) : objs(threads) {
        W = &w;
        domain_settings set = domain_settings_builder();
        set.canonicalize_types = canonical;
        dom.reset(new domain("c20", set, 0, nullptr, alc(res)));
        dom->register_feature(w.feat[0]);
        for (int i = 0; i < STABLE; ++i) dom->register_mixin(w.mix[i]);
    }
    ~Sys() { objs.clear(); dom.reset(); }
    void exec(Op& o, int thread) {
        auto& d = *dom;
        const type* t = nullptr;
        auto& mine = objs[size_t(thread)];
        std::vector<const mixin_info*> infos;
        for (int m : o.list) infos.push_back(&w.mix[m]);
        auto mixn = [&](const mixin_info* p) { return p ? w.mix_of(p) : -1; };
        auto featn = [&](const feature_info* p) { return p ? w.feat_of(p) : -1; };
        auto idn = [&](dnmx_id_int_t i) { return long(i); };
        Sched::yields(o.kind != k_get_span && o.kind != k_get_mut && o.kind != k_mk_obj);
        o.oc = outcome([&] {
            switch (o.kind) {
            case k_get_span: t = &d.get_type(infos); break;
            case k_get_mut: case k_mk_obj: { type_mutation m(d); for (auto p : infos) m.add(*p); t = &d.get_type(std::move(m)); } break;
            case k_gc: d.garbage_collect_types(); break;
            case k_add_rule: d.add_mutation_rule(w.rules[o.a]); break;
            case k_rem_rule: d.remove_mutation_rule(w.rules[o.a]); break;
            case k_reg_mix: d.register_mixin(w.mix[o.a]); o.num = idn(w.mix[o.a].iid()); break;
            case k_unreg_mix: d.unregister_mixin(w.mix[o.a]); o.num = idn(w.mix[o.a].iid()); break;
            case k_reg_feat: d.register_feature(w.feat[o.a]); o.num = idn(w.feat[o.a].iid()); break;
            case k_unreg_feat: d.unregister_feature(w.feat[o.a]); o.num = idn(w.feat[o.a].iid()); break;
            case k_mix_name: o.num = mixn(d.get_mixin_info(mix_names[o.a])); break;
            case k_mix_id: o.num = mixn(d.get_mixin_info(mixin_id{dnmx_id_int_t(o.a)})); break;
            case k_feat_name: o.num = featn(d.get_feature_info(feat_names[o.a])); break;
            case k_feat_id: o.num = featn(d.get_feature_info(feature_id{dnmx_id_int_t(o.a)})); break;
            case k_num_types: o.num = long(d.num_types()); break;
            case k_num_rules: o.num = long(d.num_mutation_rules()); break;
            case k_reg_tc: d.register_type_class(w.tcs[o.a]); break;
            case k_unreg_tc: d.unregister_type_class(w.tcs[o.a]); break;
            case k_get_tc: { auto p = d.get_type_class(tc_names[o.a]); o.num = p ? w.tc_of(p) : -1; } break;
            case k_del_obj: if (!mine.empty()) mine.erase(mine.begin() + long(size_t(o.a) % mine.size())); break;
            case k_snapshot: o.snap = snap(); break;
            }
        });
        if (!t) return;
        o.ptr = t;
        if (t != &d.get_empty_type() && !res.has(t)) { o.gone = true; return; }
        o.got = w.list_of(t->mixins);
        if (o.kind == k_mk_obj) mine.push_back(std::make_unique<object>(*t));
    }
    std::string snap() {
        domain_traverse t(*dom);
        std::ostringstream o;
        o << "mixins";
        t.traverse_mixins([&](const mixin_info& m) { o << " " << w.mix_of(&m); });
        o << ", features";
        t.traverse_features([&](const feature_info& m) { o << " " << w.feat_of(&m); });
        o << ", classes";
        std::set<int> tcs;
        t.traverse_type_classes([&](const type_class& c) { tcs.insert(w.tc_of(&c)); });
        for (int c : tcs) o << " " << c;
        o << ", rules";
        std::map<int, uint32_t> rs;
        t.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { rs[w.rule_of(&r)] += n; });
        for (auto& r : rs) o << " " << r.first << "x" << r.second;
        o << ", types";
        std::map<List, long> ts;
        t.traverse_types([&](const type& tp) { ts[w.list_of(tp.mixins)] += long(tp.num_objects()); });
        for (auto& tp : ts) o << " " << show(tp.first) << "x" << tp.second;
        return o.str();
    }
    // the stored answers are those which the rules give now
    void check_queries(const char* when) {
        domain_traverse t(*dom);
        std::map<int, uint32_t> rs;
        t.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { rs[w.rule_of(&r)] += n; });
        std::set<const type*> ts;
        std::set<List> lists;
        t.traverse_types([&](const type& tp) {
            ts.insert(&tp);
            List l = w.list_of(tp.mixins);
            VCHECK(lists.insert(l).second, when << ": two types of " << show(l));
            for (int m : l) VCHECK(m >= 0 && w.mix[m].registered(), when << ": a type of " << show(l) << " of which " << m << " is not registered");
        });
        t.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& tp) {
            List k = w.list_of(q);
            for (int m : k) VCHECK(m >= 0 && w.mix[m].registered(), when << ": a stored answer for " << show(k) << " of which " << m << " is not registered");
            VCHECK(&tp == &dom->get_empty_type() || ts.count(&tp), when << ": the stored answer for " << show(k) << " is no type of the domain");
            auto want = settle(k, rs);
            List got = w.list_of(tp.mixins);
            VCHECK(want && *want == got, when << ": the stored answer for " << show(k) << " is " << show(got) << ", the rules give " << (want ? show(*want) : "an error"));
        });
    }
};

const std::vector<List> pool = {{0}, {0, 1}, {3}, {4}, {}, {2}, {3, 4}, {4, 0}, {0, 4}, {2, 4}, {0, 2}, {2, 0}, {5}, {5, 4}, {6}, {7, 0}, {0, 0}, {1}, {0, 3}};

Op gen_op(vp::Src& s, const std::vector<List>& lists, const std::vector<int>& rules, bool objects, bool first = false) {
    Op o;
    if (objects && first) o.kind = int(s.oneof({k_gc, k_del_obj, k_mk_obj}));
    else if (objects) o.kind = int(s.oneof({k_mk_obj, k_del_obj, k_gc, k_mk_obj, k_del_obj, k_gc, k_get_span, k_num_types, k_mix_name, k_add_rule}));
    else o.kind = int(s.weighted({14, 14, 8, 9, 8, 5, 5, 3, 3, 2, 2, 2, 1, 2, 1, 2, 1, 1, 6, 3, 2}));
    switch (o.kind) {
    case k_get_span: case k_get_mut: case k_mk_obj: o.list = s.pick(lists); break;
    case k_add_rule: case k_rem_rule: o.a = rules[s.index(rules.size())]; break;
    case k_reg_mix: case k_unreg_mix: o.a = 5 + int(s.index(3)); break;
    case k_reg_feat: case k_unreg_feat: o.a = 1 + int(s.index(2)); break;
    case k_mix_name: o.a = int(s.oneof({5, 7, 0, 4})); break;
    case k_feat_name: o.a = int(s.oneof({1, 3, 0})); break;
    case k_mix_id: o.a = int(s.range(4, 8)); break;
    case k_feat_id: o.a = int(s.range(0, 4)); break;
    case k_reg_tc: case k_unreg_tc: case k_get_tc: o.a = int(s.index(NTC)); break;
    case k_del_obj: o.a = int(s.index(3)); break;
    }
    if (o.kind == k_mk_obj) for (int m : o.list) if (m >= STABLE) { o.kind = k_get_mut; break; } // objects keep their mixins from being unregistered
    return o;
}

void schedules(vp::Src& s) {
    const bool canonical = s.chance(1, 5);
    const int nt = s.chance(1, 3) ? 3 : 2;
    Sys y(canonical, size_t(nt) + 1);
    std::vector<List> lists;
    const bool objects = s.chance(1, 4); // mostly objects which come and go, and collections
    for (int i = 0; i < 3; ++i) lists.push_back(objects && s.chance(2, 3) ? pool[s.index(4)] : s.pick(pool));
    std::vector<int> rules = {int(s.index(NR)), int(s.index(NR))};
    Model start;
    for (int i = 0; i < STABLE; ++i) start.mix.push_back(i);
    start.feat = {0};
    if (canonical) start.rules[NR] = 1;
    start.objs.resize(size_t(nt) + 1);

    Linear lin;
    lin.empty = &y.dom->get_empty_type();
    lin.h.resize(size_t(nt) + 1);
    Sched sch(s, nt);
    y.sched = &sch;
    auto run1 = [&](Op o, int th) {
        o.t0 = sch.tick();
        y.exec(o, th);
        o.t1 = sch.tick();
        lin.h[size_t(th)].push_back(std::move(o));
    };
    for (int i = 0; i < 4 && s.chance(objects ? 4 : 2, objects ? 5 : 4); ++i) {
        vp::Src::Op span(s);
        Op o = gen_op(s, lists, rules, objects);
        if (objects && s.flip()) { o.kind = k_mk_obj; o.list = s.pick(lists); if (!o.list.empty() && *std::max_element(o.list.begin(), o.list.end()) >= STABLE) o.list.clear(); }
        run1(o, int(s.index(size_t(nt) + 1)));
    }
    std::vector<std::vector<Op>> prog(static_cast<size_t>(nt));
    for (auto& p : prog) for (int i = 0; i < (nt == 3 ? 3 : 4) && (!i || s.chance(2, 3)); ++i) { vp::Src::Op span(s); p.push_back(gen_op(s, lists, rules, objects, !i)); }

    std::vector<std::function<void()>> fs;
    for (int i = 0; i < nt; ++i) fs.push_back([&, i] { for (auto& o : prog[size_t(i)]) { if (o.kind == k_del_obj) Sched::between(); run1(o, i); } });
    if (!sch.run(fs)) { s.label("the threads wait for each other outside the locks, not decided"); throw vp::Discard{}; }

    // afterwards
    std::string late;
    try { y.check_queries("after the threads"); } catch (vp::Failure& f) { late = f.msg; }
    Op o;
    auto tail = [&](int kind, List l = {}) { Op o; o.kind = kind; o.list = l; run1(o, nt); };
    if (late.empty()) {
        tail(k_snapshot);
        for (auto& l : lists) tail(k_get_span, l);
        for (auto& l : {List{0}, List{3}, List{0, 1}}) tail(k_get_mut, l);
        tail(k_snapshot);
        try { y.check_queries("after the requests which follow"); } catch (vp::Failure& f) { late = f.msg; }
        tail(k_gc);
        tail(k_snapshot);
    }
    if (s.verbose) {
        struct L { uint64_t t; std::string s; };
        std::vector<L> ls;
        for (int i = 0; i <= nt; ++i) for (auto& o : lin.h[size_t(i)]) {
            std::string who = i == nt ? "main" : "T" + std::to_string(i);
            bool over = false;
            for (int j = 0; j < nt; ++j) if (j != i) for (auto& p : lin.h[size_t(j)]) over |= p.t0 < o.t1 && o.t0 < p.t1;
            if (over) { ls.push_back({o.t0, who + ": " + kind_names[o.kind] + " starts"}); ls.push_back({o.t1, who + ": " + o.str()}); }
            else ls.push_back({o.t1, who + ": " + o.str()});
        }
        std::sort(ls.begin(), ls.end(), [](auto& a, auto& b) { return a.t < b.t; });
        VLOG((canonical ? "canonical types, " : "") << nt << " threads");
        for (auto& l : ls) VLOG("  " << l.s);
    }
    if (!late.empty()) VFAIL(late);
    for (auto& h : lin.h) for (auto& a : h) if (a.kind == k_gc)
        for (auto& g : lin.h) for (auto& b : g) a.loose |= b.kind == k_del_obj && b.t0 < a.t1 && a.t0 < b.t1;
    for (auto& h : lin.h) for (auto& a : h) if (a.kind >= k_reg_mix && a.kind <= k_unreg_feat) for (auto& g : lin.h) for (auto& b : g)
        a.any_id |= &a != &b && b.kind >= k_reg_mix && b.kind <= k_unreg_feat && b.t0 < a.t1 && a.t0 < b.t1;
    std::vector<size_t> pos(lin.h.size(), 0);
    int r = lin.go(start, pos);
    if (r < 0) s.label("too many orders, not decided");
    if (r == 0) {
        size_t all = 0;
        for (auto& h : lin.h) all += h.size();
        VFAIL("no one-at-a-time order of the calls gives these results (at most " << lin.best << " of " << all << " fit)");
    }
    // what there was of interest
    bool inter = false;
    for (int i = 0; i < nt; ++i) for (auto& a : lin.h[size_t(i)]) for (int j = 0; j < nt; ++j) if (i != j) for (auto& b : lin.h[size_t(j)]) {
        if (a.t0 < b.t0 && b.t1 < a.t1) {
            bool req = a.kind == k_get_span || a.kind == k_get_mut || a.kind == k_mk_obj;
            if (!req) continue;
            if (b.kind == k_add_rule || b.kind == k_rem_rule) { inter = true; s.label("a rule changes within a type request"); }
            if (b.kind == k_gc) { inter = true; s.label("a collection within a type request"); }
            if (b.kind == k_unreg_mix && b.oc == oc_ok) { inter = true; s.label("a mixin unregistered within a type request"); }
            if (b.kind <= k_get_mut) { inter = true; s.label("a type request within a type request"); }
        }
    }
    if (sch.switches) s.label("a thread is stopped at a lock");
    if (sch.after) s.label("a thread is stopped after it gave up a lock");
    if (sch.inside) s.label("a thread is stopped while it holds a lock");
    for (auto& h : lin.h) for (auto& a : h) if (a.loose) { inter = true; s.label("an object is destroyed within a collection"); }
    if (sch.blocked) s.label("a thread waits for a lock");
    if (inter) s.interesting();
    // the end of the objects and types
    y.objs.clear();
    y.objs.resize(size_t(nt) + 1);
    y.dom->garbage_collect_types();
    VEQ(y.dom->num_types(), size_t(0), "types without objects after a collection");
    y.dom.reset();
    VCHECK(y.res.out.empty(), y.res.out.size() << " blocks of the domain are not given back");
    VCHECK(y.res.err.empty(), y.res.err);
}

// ---------------------------------------------------------------- threads as they come
void threads(vp::Src& s) {
    World w;
    W = &w;
    const bool with_gc = s.flip();
    const int nt = int(s.range(2, 4));
    std::unique_ptr<domain> dom(new domain("c20", domain_settings_builder()));
    auto& d = *dom;
    d.register_feature(w.feat[0]);
    for (int i = 0; i < STABLE; ++i) d.register_mixin(w.mix[i]);
    // each thread has elements of its own
    struct Own {
        mixin_info mix[2]; feature_info feat[2]; feature_for_mixin ffm; type_class tc; std::string names[5]; int payload = 0;
        struct Step { int kind, a; List list; };
        std::vector<Step> prog;
        std::vector<std::unique_ptr<object>> objs;
        std::string err;
        std::vector<std::pair<List, const type*>> got;
        std::vector<std::pair<dnmx_id_int_t, int>> ids;
        int net[NR] = {};
        bool reg_m[2] = {}, reg_f[2] = {}, reg_tc = false;
        long made = 0, gone = 0;
    };
    std::vector<List> lists = {{0}, {3}, {4, 0}, {0, 3}, {2, 4}, {0, 4}, {2}, {0, 0}, {0, 2}};
    std::vector<Own> own(static_cast<size_t>(nt));
    std::vector<int> rule_of_case = {int(s.index(NR)), int(s.index(NR))};
    const bool rules_change = s.chance(2, 3);
    int work = 0;
    const int rep = s.chance(1, 5) ? int(s.range(20, 100)) : 1; // a few calls, again and again
    const bool same = rep > 1 && s.flip();
    for (int i = 0; i < nt; ++i) {
        auto& o = own[size_t(i)];
        for (int k = 0; k < 2; ++k) {
            o.names[k] = "own" + std::to_string(i) + char('a' + k);
            o.names[k + 2] = "fo" + std::to_string(i) + char('a' + k);
            o.mix[k] = w.mix[2];
            o.mix[k].id = invalid_mixin_id; o.mix[k].dom = nullptr; o.mix[k].features = nullptr; o.mix[k].num_features = 0;
            o.mix[k].name = dnmx_make_sv_len(o.names[k].data(), o.names[k].size());
            o.mix[k].init = [](const mixin_info* i, void* p) -> error_return_t { memset(p, 1, i->size); return result_success; };
            o.feat[k] = w.feat[3];
            o.feat[k].id = invalid_feature_id;
            o.feat[k].name = dnmx_make_sv_len(o.names[k + 2].data(), o.names[k + 2].size());
        }
        o.names[4] = "class" + std::to_string(i);
        o.tc.name = dnmx_make_sv_len(o.names[4].data(), o.names[4].size());
        o.tc.matches = [](dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() == 0; };
        o.ffm = {}; o.ffm.info = &o.feat[1]; o.ffm.payload = &o.payload;
        o.mix[1].features = &o.ffm; o.mix[1].num_features = 1;
        if (same && i) { o.prog = own[0].prog; continue; }
        int n = rep > 1 ? int(s.range(1, 3)) : int(s.range(2, 24));
        std::vector<int> held(NR, 0);
        for (int k = 0; k < n; ++k) {
            vp::Src::Op span(s);
            Own::Step st{int(s.weighted({8, 8, 5, 5, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 2})), int(s.index(8)), s.pick(lists)};
            if ((st.kind == 5 || st.kind == 6) && !rules_change) st.kind = 0;
            if (st.kind == 5) st.a = rule_of_case[size_t(st.a % 2)];
            if (st.kind == 6) { st.a = rule_of_case[size_t(st.a % 2)]; if (!held[size_t(st.a)]) st.kind = 5; }
            if (st.kind == 5) ++held[size_t(st.a)];
            if (st.kind == 6) --held[size_t(st.a)];
            if (st.kind <= 3) ++work;
            o.prog.push_back(st);
        }
    }
    if (with_gc) // objects to be ended by the threads, of types which have no other
        for (auto& o : own) for (int k = int(s.range(0, 3)); k > 0; --k) { vp::Src::Op span(s); auto& l = lists[s.index(7)]; std::vector<const mixin_info*> v; for (int m : l) v.push_back(&w.mix[m]); o.objs.push_back(std::make_unique<object>(d.get_type(v))); ++o.made; }

    std::atomic<int> go{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i) ts.emplace_back([&, i] {
        auto& o = own[size_t(i)];
        auto fail = [&](const std::string& m) { if (o.err.empty()) o.err = m; };
        ++go;
        while (go.load() < nt) {}
        for (int again = 0; again < rep; ++again) for (auto& st : o.prog) try {
            switch (st.kind) {
            case 0: case 1: case 2: {
                std::vector<const mixin_info*> v;
                for (int m : st.list) v.push_back(&w.mix[m]);
                if (st.kind == 2 && !o.reg_m[st.a % 2]) break;
                if (st.kind == 2) v.push_back(&o.mix[st.a % 2]);
                try {
                    const type* t;
                    if (st.a & 1) t = &d.get_type(v);
                    else { type_mutation m(d); for (auto p : v) m.add(*p); t = &d.get_type(std::move(m)); }
                    if (with_gc || st.kind == 2) break; // not ours to look at
                    o.got.push_back({st.list, t});
                    if (st.kind == 1) {
                        o.objs.push_back(std::make_unique<object>(*t));
                        ++o.made;
                        if (t->num_objects() < 1 && t->num_mixins()) fail("no objects counted while there is one");
                    }
                }
                catch (type_error&) { if (!with_gc && st.kind != 2) o.got.push_back({st.list, nullptr}); }
                break;
            }
            case 3: if (!o.objs.empty()) { size_t k = size_t(st.a) % o.objs.size(); o.objs.erase(o.objs.begin() + long(k)); ++o.gone; } break;
            case 4: {
                int k = st.a % STABLE;
                if (d.get_mixin_info(mix_names[k]) != &w.mix[k]) fail("a registered mixin is not found by its name");
                if (d.get_mixin_info(w.mix[k].id) != &w.mix[k]) fail("a registered mixin is not found by its id");
                if (d.get_feature_info("F0") != &w.feat[0]) fail("a registered feature is not found by its name");
                if (d.get_feature_info(w.feat[0].id) != &w.feat[0]) fail("a registered feature is not found by its id");
                if (d.get_mixin_info("nothing")) fail("a mixin of an unknown name");
                if (d.get_type_class("nothing")) fail("a type class of an unknown name");
                (void)d.num_types(); (void)d.num_mutation_rules(); (void)d.num_type_queries();
                auto other = d.get_mixin_info("own0a");
                if (other && other != &own[0].mix[0]) fail("another mixin than the one of the name");
                break;
            }
            case 5: d.add_mutation_rule(w.rules[st.a]); ++o.net[st.a]; break;
            case 6: d.remove_mutation_rule(w.rules[st.a]); --o.net[st.a]; break;
            case 7: case 8: {
                int k = st.kind - 7;
                if (o.reg_m[k]) {
                    d.unregister_mixin(o.mix[k]);
                    if (o.mix[k].registered() || o.mix[k].dom) fail("an unregistered mixin has an id or a domain");
                    if (d.get_mixin_info(o.names[k])) fail("an unregistered mixin is found");
                }
                else {
                    d.register_mixin(o.mix[k]);
                    if (k) o.reg_f[1] = true;
                    if (d.get_mixin_info(o.names[k]) != &o.mix[k]) fail("a mixin which was registered is not found by name");
                    if (d.get_mixin_info(o.mix[k].id) != &o.mix[k]) fail("a mixin which was registered is not found by id");
                }
                o.reg_m[k] = !o.reg_m[k];
                break;
            }
            case 9: {
                if (o.reg_f[0]) d.unregister_feature(o.feat[0]); else d.register_feature(o.feat[0]);
                o.reg_f[0] = !o.reg_f[0];
                if (d.get_feature_info(o.names[2]) != (o.reg_f[0] ? &o.feat[0] : nullptr)) fail("a feature and its name");
                break;
            }
            case 10: {
                domain_traverse t(d);
                int n = 0;
                t.traverse_mixins([&](const mixin_info& m) { if (m.dom) ++n; });
                if (n < STABLE) fail("a traversal misses mixins");
                t.traverse_types([&](const type& tp) { if (!tp.num_mixins()) fail("a type without mixins"); });
                t.traverse_features([&](const feature_info&) {});
                t.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t c) { if (!c || !r.apply) fail("a rule with no references"); });
                break;
            }
            case 11: if (with_gc) d.garbage_collect_types(); break;
            case 12: {
                if (o.reg_tc) d.unregister_type_class(o.tc); else d.register_type_class(o.tc);
                o.reg_tc = !o.reg_tc;
                if (d.get_type_class(o.names[4]) != (o.reg_tc ? &o.tc : nullptr)) fail("a type class and its name");
                if (o.reg_tc && !d.get_empty_type().is_of(o.names[4])) fail("the empty type is not of a class of types without mixins");
                break;
            }
            case 13: if (!with_gc && !o.objs.empty()) { // an object gets another type
                std::vector<const mixin_info*> v;
                for (int m : st.list) v.push_back(&w.mix[m]);
                auto& ob = *o.objs[size_t(st.a) % o.objs.size()];
                const type* t = nullptr;
                try { t = &d.get_type(v); } catch (type_error&) {}
                if (!t) break;
                if (st.a & 1) ob.reset_type(*t);
                else object_mutation m(ob, *t);
                if (&ob.get_type() != t) fail("an object does not have the type it was given");
                break;
            }
            case 14: if (!o.objs.empty()) { // a copy
                auto& ob = *o.objs[size_t(st.a) % o.objs.size()];
                auto c = std::make_unique<object>(ob.copy());
                if (&c->get_type() != &ob.get_type()) fail("a copy is of another type");
                if (st.a & 2) { o.objs.push_back(std::move(c)); ++o.made; }
                break;
            }
            }
        }
        catch (std::exception& e) { fail(std::string("an exception: ") + e.what()); }
    });
    for (auto& t : ts) t.join();
    VLOG(nt << " threads, " << (with_gc ? "with" : "without") << " collections");
    if (s.verbose) for (int i = 0; i < nt; ++i) { std::string l; for (auto& st : own[size_t(i)].prog) l += " " + std::to_string(st.kind) + "/" + std::to_string(st.a) + (st.kind < 3 ? show(st.list) : ""); VLOG("  T" << i << ":" << l); }
    for (int i = 0; i < nt; ++i) VCHECK(own[size_t(i)].err.empty(), "thread " << i << ": " << own[size_t(i)].err);
    // rules
    std::map<int, uint32_t> want, got;
    for (auto& o : own) for (int r = 0; r < NR; ++r) if (o.net[r]) want[r] += uint32_t(o.net[r]);
    {
        domain_traverse t(d);
        t.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t n) { got[w.rule_of(&r)] = n; });
    }
    VCHECK(want == got, "the rules which remain differ from those added and not removed");
    // equal lists, equal types
    std::map<List, std::set<const type*>> by;
    long made = 0, gone = 0, live = 0;
    for (auto& o : own) {
        for (auto& g : o.got) {
            // by some of the rules
            std::set<int> rr(rule_of_case.begin(), rule_of_case.end());
            std::vector<int> rv(rr.begin(), rr.end());
            List l;
            if (g.second) { l = w.list_of(g.second->mixins); by[l].insert(g.second); }
            bool ok = false;
            for (int mask = 0; mask < (1 << rv.size()); ++mask) {
                std::map<int, uint32_t> rs;
                for (size_t k = 0; k < rv.size(); ++k) if (mask >> k & 1) rs[rv[k]] = 1;
                auto f = settle(g.first, rs);
                if (g.second ? f && *f == l : !f || bad_list(*f)) ok = true;
            }
            VCHECK(ok, "a request for " << show(g.first) << " gives " << (g.second ? show(l) : "an error") << " by no set of the rules");
        }
        made += o.made; gone += o.gone; live += long(o.objs.size());
    }
    for (auto& b : by) VEQ(b.second.size(), size_t(1), "types for " << show(b.first));
    VEQ(made - gone, live, "objects");
    // ids
    std::set<dnmx_id_int_t> ids;
    for (int i = 0; i < STABLE; ++i) ids.insert(w.mix[i].iid());
    size_t n = STABLE;
    for (auto& o : own) for (int k = 0; k < 2; ++k) {
        VEQ(o.mix[k].registered(), o.reg_m[k], "registered");
        if (o.reg_m[k]) { ++n; ids.insert(o.mix[k].iid()); VCHECK(d.get_mixin_info(o.mix[k].id) == &o.mix[k], "a registered mixin is lost"); VCHECK(d.get_mixin_info(o.names[k]) == &o.mix[k], "a registered mixin is lost"); }
        if (o.reg_f[k]) { VCHECK(d.get_feature_info(o.feat[k].id) == &o.feat[k], "a registered feature is lost"); VCHECK(d.get_feature_info(o.names[k + 2]) == &o.feat[k], "a registered feature is lost"); }
    }
    VEQ(ids.size(), n, "different ids of the registered mixins");
    for (auto& o : own) VEQ(d.get_type_class(o.names[4]), (o.reg_tc ? (const type_class*)&o.tc : nullptr), "type class of a name");
    // counts and stored answers
    std::map<const type*, long> cnt;
    for (auto& o : own) for (auto& p : o.objs) if (p->get_type().num_mixins()) ++cnt[&p->get_type()];
    {
        domain_traverse t(d);
        std::set<const type*> all;
        std::set<std::vector<const mixin_info*>> lists;
        t.traverse_types([&](const type& tp) {
            all.insert(&tp);
            VCHECK(lists.insert({tp.mixins.begin(), tp.mixins.end()}).second, "two types of one list");
            VEQ(long(tp.num_objects()), cnt[&tp], "objects counted of a type");
        });
        for (auto& c : cnt) if (c.second) VCHECK(all.count(c.first), "the type of an object is lost");
        t.traverse_type_queries([&](itlib::span<const mixin_info* const> q, const type& tp) {
            VCHECK(&tp == &d.get_empty_type() || all.count(&tp), "a stored answer is no type of the domain");
            List k = w.list_of(q), own_k;
            bool mine = true;
            for (int m : k) if (m < 0) mine = false;
            if (!mine) { for (auto p : q) VCHECK(p->registered(), "a stored answer for a mixin which is not registered"); return; }
            auto f = settle(k, got);
            VCHECK(f && *f == w.list_of(tp.mixins), "the stored answer for " << show(k) << " is " << show(w.list_of(tp.mixins)) << ", the rules give " << (f ? show(*f) : "an error"));
        });
    }
    for (auto& o : own) o.objs.clear();
    d.garbage_collect_types();
    VEQ(d.num_types(), size_t(0), "types without objects after a collection");
    if (work > nt) s.interesting();
    s.label(with_gc ? "with collections" : "without collections");
    dom.reset();
}

// ---------------------------------------------------------------- many objects
// gives blocks of its own thread without taking a lock
struct Blocks final : std::remove_pointer_t<decltype(std::declval<allocator>().resource())> {
    static constexpr size_t size = 256, n = 64;
    alignas(64) unsigned char mem[n][size];
    unsigned char* free_[n];
    size_t left = n;
    Blocks() { for (size_t i = 0; i < n; ++i) free_[i] = mem[i]; }
    void* do_allocate(size_t s, size_t a) override { if (s > size || a > 64 || !left) throw std::bad_alloc(); return free_[--left]; }
    void do_deallocate(void* p, size_t, size_t) override { free_[left++] = static_cast<unsigned char*>(p); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
void many_objects(vp::Src& s) {
    domain d("c20", domain_settings_builder());
    mixin_info mi[3];
    static const char* const nm[3] = {"m0", "m1", "m2"};
    for (int i = 0; i < 3; ++i) {
        mi[i] = dnmx_make_mixin_info();
        mi[i].name = dnmx_make_sv_str(nm[i]);
        mi[i].set_size_alignment(byte_size_t(s.oneof({1, 8, 24})), byte_size_t(s.oneof({1, 8, 16})));
        mi[i].init = dnmx_mixin_common_init_func; mi[i].copy_init = mi[i].copy_asgn = dnmx_mixin_common_copy_func; mi[i].move_init = mi[i].move_asgn = dnmx_mixin_common_move_func;
        d.register_mixin(mi[i]);
    }
    std::vector<const type*> types;
    for (int k = int(s.range(1, 2)); k > 0; --k) {
        vp::Src::Op span(s);
        std::vector<const mixin_info*> v;
        for (int i = 0; i < 3; ++i) if (s.flip()) v.push_back(&mi[i]);
        if (v.empty()) v.push_back(&mi[0]);
        types.push_back(&d.get_type(v));
    }
    const int nt = int(s.range(2, 4)), rounds = int(s.range(200, 600));
    struct Th { std::vector<std::pair<int, int>> prog; Blocks mem; std::map<int, std::unique_ptr<object>> objs; std::string err; };
    std::vector<std::unique_ptr<Th>> ths;
    bool copies = false;
    for (int i = 0; i < nt; ++i) {
        ths.push_back(std::make_unique<Th>());
        VLOG("thread " << i << " " << rounds << " times:");
        for (int k = int(s.range(1, 5)); k > 0; --k) { vp::Src::Op span(s); std::pair<int, int> st{int(s.weighted({5, 3, 2, 2, 1, 1})), int(s.index(8))}; copies |= st.first == 2; VLOG("  step " << st.first << " " << st.second); ths.back()->prog.push_back(st); }
    }
    std::atomic<int> go{0};
    std::vector<std::thread> ts;
    for (auto& p : ths) ts.emplace_back([&, th = p.get()] {
        allocator a(&th->mem);
        ++go;
        while (go.load() < nt) {}
        try {
            for (int r = 0; r < rounds; ++r) for (auto& st : th->prog) {
                const type& t = *types[size_t(st.second) % types.size()];
                auto& o = th->objs[st.second % 3];
                switch (st.first) {
                case 0: o.reset(); o = std::make_unique<object>(t, a); break;
                case 1: { object x(t, a); break; }
                case 2: if (o) { auto c = o->copy(a); if (&c.get_type() != &o->get_type()) th->err = "type of a copy"; } break;
                case 3: if (!o) o = std::make_unique<object>(d, a); o->reset_type(t); break;
                case 4: if (o) { object x(std::move(*o)); *o = std::move(x); } break;
                default: if (o) o->clear(); break;
                }
            }
        }
        catch (const std::exception& e) { th->err = e.what(); }
    });
    for (auto& t : ts) t.join();
    std::map<const type*, size_t> want;
    for (auto& th : ths) {
        VCHECK(th->err.empty(), "a thread: " << th->err);
        for (auto& o : th->objs) if (o.second && o.second->get_type().num_mixins()) ++want[&o.second->get_type()];
    }
    for (auto t : types) VEQ(t->num_objects(), want[t], "objects counted of a type");
    for (auto& th : ths) { th->objs.clear(); VEQ(th->mem.left, Blocks::n, "blocks given back by the objects of a thread"); }
    for (auto t : types) VEQ(t->num_objects(), size_t(0), "objects counted of a type at the end");
    d.garbage_collect_types();
    VEQ(d.num_types(), size_t(0), "types without objects after a collection");
    if (copies) s.label("with copies");
    s.interesting();
}

vp::Reg r1("C20", vp::Part{"chosen schedules",
    "0..4 calls, then 2 or 3 threads of 1..4 calls each on one domain (type requests by span and by mutation, collections, rules, mixins, features, type classes, lookups, traversals, objects), every lock of the domain (before, while it is held, and after) being a point where the choices may let another thread go on; the results, with those of requests and traversals afterwards, must be those of a one-at-a-time order which keeps the calls that did not overlap in their order, and every stored answer must be what the rules then give. Non-trivial: a rule change, collection, unregistration or another request runs from start to end within a type request",
    schedules, 60000, 1500000, false, 60000});
vp::Reg r2("C20", vp::Part{"threads as they come",
    "2 to 4 threads of 2..24 calls each, or of 1..3 again and again (the same ones or others), run freely under ThreadSanitizer, with elements (mixins, features, type classes, objects which are copied and get other types) of their own and shared ones, with or without collections; no race is reported, lookups are right, requests give what some set of the rules gives, equal lists one type, ids differ, the counts of objects, references of rules and stored answers are right afterwards. Non-trivial: more requests and objects than threads",
    threads, 12000, 400000, true, 60000});
vp::Reg r3("C20", vp::Part{"many objects",
    "2 to 4 threads make, copy, move, change and destroy objects of one or two types, 200 to 600 times the same 1 to 5 steps at once, under ThreadSanitizer and with allocators of their own; the counts of objects are exact when they have ended, and the blocks are given back. Non-trivial: every case",
    many_objects, 1200, 40000, true, 60000});
}
