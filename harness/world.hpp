// Instrumented world: tracking memory resources, runtime mixin infos whose callbacks keep a registry of
// live mixin instances, mutation rules given as data, and a reference model of a domain.
#pragma once
#include "engine.hpp"

#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/domain.from_info.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/dbg_dmp.hpp>

#include <memory>
#include <array>
#include <optional>
#include <variant>
#include <cstddef>

#if defined(__has_feature)
#   if __has_feature(address_sanitizer)
#       define VP_ASAN 1
#   endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(VP_ASAN)
#include <sanitizer/asan_interface.h>
#define VP_POISON(p, n) __asan_poison_memory_region(p, n)
#define VP_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define VP_POISON(p, n) ((void)0)
#define VP_UNPOISON(p, n) ((void)0)
#endif

namespace w {
using namespace dynamix;
using vp::Src;
using vp::Failure;
using vp::Discard;

#if DYNAMIX_HAS_PMR
using memory_resource = std::pmr::memory_resource;
#else
using memory_resource = dynamix::compat::pmr::memory_resource;
#endif

struct World;
struct Spec;
struct Dom;

// thrown by injected faults in user callbacks
struct FaultEx : std::runtime_error { using std::runtime_error::runtime_error; };
struct FaultOdd { int code; }; // not derived from std::exception

// faults: the n-th fault point from now fails
struct Faults {
    long left = -1;        // -1 off
    bool throwing = false; // callbacks: throw instead of returning an error
    bool odd = false;      // throw something not derived from std::exception
    bool hit = false;
    long points = 0;
    std::string where;
    [[noreturn]] void raise(const char* what) { if (odd) throw FaultOdd{5}; throw FaultEx(what); }
    void arm(long n, bool thr, bool od = false) { left = n; throwing = thr; odd = od; hit = false; points = 0; where.clear(); }
    void off() { left = -1; }
    bool point(const char* what) {
        ++points;
        if (left < 0) return false;
        if (left-- == 0) { hit = true; where = what; left = -1; return true; }
        return false;
    }
};

// a memory resource which checks that every block comes back as it went out
struct Res final : public memory_resource {
    World* w; std::string name;
    struct Block { size_t size, align; char* raw; size_t raw_size; };
    std::map<uintptr_t, Block> live;
    uint64_t total = 0;
    bool faulty = true; // a fault point
    std::function<void(size_t)> on_alloc; // schedule hook
    Res(World* w, std::string n) : w(w), name(std::move(n)) {}
    ~Res();
    void* do_allocate(size_t size, size_t align) override;
    void do_deallocate(void* p, size_t size, size_t align) override;
#if DYNAMIX_HAS_PMR
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
#else
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
#endif
    const Block* block_of(uintptr_t a, size_t n) const {
        auto i = live.upper_bound(a);
        if (i == live.begin()) return nullptr;
        --i;
        if (a >= i->first && a + n <= i->first + i->second.size) return &i->second;
        return nullptr;
    }
};

struct MAlloc final : public mixin_allocator {
    Res res;
    MAlloc(World* w, std::string n) : res(w, std::move(n)) {}
    byte_t* alloc_mixin_buf(const mixin_info& info) override {
        return static_cast<byte_t*>(res.allocate(info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset));
    }
    void dealloc_mixin_buf(byte_t* ptr, const mixin_info& info) noexcept override {
        res.deallocate(ptr, info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset);
    }
};

struct Feat {
    feature_info info = dnmx_make_feature_info();
    std::string store; std::string_view nm;
    int idx = 0;
    Dom* home = nullptr;
    bool registered = false; // model
};

enum : uint32_t { no_init = 1, no_copy_init = 2, no_move_init = 4, no_copy_asgn = 8, no_move_asgn = 16, no_destroy = 32, no_equals = 64, no_compare = 128 };

struct Spec {
    World* w = nullptr;
    Dom* home = nullptr;   // the domain it is meant for
    int idx = 0;
    mixin_info info = dnmx_make_mixin_info();
    std::string store; std::string_view nm;
    std::vector<feature_for_mixin> ffm;
    std::vector<Feat*> feats;
    std::unique_ptr<MAlloc> alloc;
    int def_value = 0;
    Dom* reg = nullptr;     // model: domain it is registered in
    bool ext() const { return info.external(); }
    size_t size() const { return info.size; }
};
using List = std::vector<Spec*>;

struct Inst { Spec* spec; uint64_t uid; uint64_t lineage; int value; bool moved; };

enum class Ev { init, ovr, copy_init, move_init, copy_asgn, move_asgn, destroy, upd };
inline const char* ev_name(Ev e) { static const char* n[] = {"init", "override", "copy_init", "move_init", "copy_asgn", "move_asgn", "destroy", "update"}; return n[int(e)]; }
struct Event { Ev kind; Spec* spec; const void* ptr; const void* src; uint64_t uid; uint64_t lineage; };

struct Rule {
    mutation_rule_info info = {};
    std::string store; std::string_view nm;
    World* w = nullptr;
    int idx = 0, kind = 0;
    Spec* a = nullptr; Spec* b = nullptr;
};

struct TC { type_class info = {}; std::string store; std::string_view nm; int idx = 0, kind = 0; };

inline std::string q(std::string_view v) {
    std::string o = "\"";
    for (unsigned char c : v) { if (c >= 0x20 && c < 0x7f) o += char(c); else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    return o + "\"";
}
inline std::ostream& operator<<(std::ostream& o, const Spec& m) { return o << "M" << m.idx; }
inline std::string str(const List& l) { std::string o = "["; for (auto m : l) { o += (o.size() > 1 ? " M" : "M") + std::to_string(m->idx); } return o + "]"; }
inline std::ostream& operator<<(std::ostream& o, const List& l) { return o << str(l); }

inline std::string_view sv(const dnmx_sv& v) { return std::string_view(v.begin, size_t(v.end - v.begin)); }

// byte-wise order, written out: the oracle for all name orders
inline int bytes_cmp(std::string_view a, std::string_view b) {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x != y) return x < y ? -1 : 1;
    }
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

struct PayloadRef { size_t mixin; const feature_for_mixin* f; };

// domain + its model
struct Dom {
    World* w = nullptr; int idx = 0;
    std::string name;
    domain_settings settings = {};
    std::unique_ptr<Res> res; // allocator of the domain, or null for the default one
    std::unique_ptr<domain> d;

    std::vector<Spec*> mixins;   // by id
    std::vector<Feat*> feats;    // by id
    std::vector<TC*> tcs;        // registered, in no particular order
    std::map<Rule*, int> rules;  // with reference counts
    std::map<List, const type*> types;

    bool canon() const { return settings.canonicalize_types; }
    size_t n_rules() const { return rules.size() + canon(); }

    std::vector<Rule*> sorted_rules() const {
        std::vector<Rule*> r;
        for (auto& x : rules) r.push_back(x.first);
        std::sort(r.begin(), r.end(), [](Rule* a, Rule* b) {
            if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
            if (int c = bytes_cmp(a->nm, b->nm)) return c < 0;
            return a < b;
        });
        return r;
    }
    template <typename T>
    static uint32_t least_free(const std::vector<T*>& v) { uint32_t i = 0; while (i < v.size() && v[i]) ++i; return i; }
    template <typename T>
    static void put(std::vector<T*>& v, uint32_t i, T* t) { if (i >= v.size()) v.resize(i + 1); v[i] = t; }
    Spec* mixin_named(std::string_view n) const { for (auto m : mixins) if (m && m->nm == n) return m; return nullptr; }
};

struct Resolved {
    enum St { ok, rule_error, rule_throw, cyclic, invalid } st = ok;
    List list;
    bool changed = false; // rules or dependency stripping changed the list
};

inline bool canon_less(const Spec* a, const Spec* b) {
    if (a->info.order_priority != b->info.order_priority) return a->info.order_priority < b->info.order_priority;
    if (int c = bytes_cmp(a->nm, b->nm)) return c < 0;
    if (a->info.id.i != b->info.id.i) return a->info.id.i < b->info.id.i;
    return &a->info < &b->info;
}

// harness-side view of an object
struct MInst { Spec* spec; uint64_t lineage; int value; const void* addr; };
struct Obj {
    int idx = 0;
    Dom* dom = nullptr;
    Res* res = nullptr; // null: default resource
    std::unique_ptr<object> o;
    const type* t = nullptr;
    std::vector<MInst> m;
    bool sealed = false;
    List list() const { List l; for (auto& x : m) l.push_back(x.spec); return l; }
    int find(const Spec* s) const { for (size_t i = 0; i < m.size(); ++i) if (m[i].spec == s) return int(i); return -1; }
};

struct World {
    Src& s;
    Faults faults;
    std::map<uintptr_t, Inst> insts;
    std::vector<Event> events;
    uint64_t next_uid = 1;
    const object* owner_hint = nullptr; // when set: the object whose mixins are being constructed
    bool check_owner = true;
    std::string names_buf;   // shared buffer for prefix-sharing names

    std::vector<std::unique_ptr<Res>> res; // object resources
    std::vector<std::unique_ptr<Feat>> feats;
    std::vector<std::unique_ptr<Spec>> specs;
    std::vector<std::unique_ptr<Rule>> rules;
    std::vector<std::unique_ptr<TC>> tcs;
    std::vector<std::unique_ptr<Dom>> doms;
    std::vector<std::unique_ptr<Obj>> objs;
    int next_obj = 0;

    Res* default_res = nullptr;   // installed as the process default while the world lives
    bool default_tracked = false;
    bool strict_default = true;   // every block of the default resource must belong to an object

    explicit World(Src& s) : s(s) {
        default_res = &add_res();
        default_res->name = "default resource";
#if DYNAMIX_HAS_PMR
        std::pmr::set_default_resource(default_res);
        default_tracked = true;
#endif
    }
    World(const World&) = delete;

    ~World() {
#if DYNAMIX_HAS_PMR
        std::pmr::set_default_resource(nullptr);
#endif
        // on failure paths: never run the code under test again, leak instead (the process ends)
        if (std::uncaught_exceptions() || !s.soft.empty()) {
            for (auto& o : objs) { (void)o->o.release(); }
            for (auto& d : doms) { (void)d->d.release(); if (d->res) { d->res->live.clear(); } }
            for (auto& r : res) r->live.clear();
            for (auto& m : specs) if (m->alloc) { m->alloc->res.live.clear(); (void)m->alloc.release(); }
            for (auto& r : res) (void)r.release();
            for (auto& d : doms) (void)d->res.release();
            for (auto& m : specs) (void)m.release();
            for (auto& r : rules) (void)r.release();
            for (auto& f : feats) (void)f.release();
        }
    }

    void soft(const std::string& m) { s.soft_fail(m); }
    template <typename F> void softf(F&& f) { std::ostringstream o; f(o); s.soft_fail(o.str()); }

    // ---- live instances ----
    static uint8_t pat(uint64_t uid, size_t i) { return uint8_t(uid * 37 + i * 11 + 5); }
    void fill(const Inst& in, void* p) { for (size_t i = 0; i < in.spec->size(); ++i) ((uint8_t*)p)[i] = pat(in.uid, i); }
    bool pattern_ok(const Inst& in, const void* p) {
        for (size_t i = 0; i < in.spec->size(); ++i) if (((const uint8_t*)p)[i] != pat(in.uid, i)) return false;
        return true;
    }
    Inst* find_inst(const void* p) { auto i = insts.find(uintptr_t(p)); return i == insts.end() ? nullptr : &i->second; }

    bool check_block(Spec* sp, const void* p) {
        uintptr_t a = uintptr_t(p);
        if (sp->info.alignment > 1 && a % sp->info.alignment) { softf([&](auto& o) { o << *sp << " is not aligned to " << sp->info.alignment; }); return false; }
        size_t lo = sizeof(void*);
        const Res::Block* b = nullptr;
        Res* where = nullptr;
        auto look = [&](Res* r) { if (!b && r) { b = r->block_of(a - lo, sp->size() + lo); if (b) where = r; } };
        for (auto& r : res) look(r.get());
        for (auto& x : specs) if (x->alloc) look(&x->alloc->res);
        (void)where;
        if (!b && !default_tracked) return true;
        if (!b) { softf([&](auto& o) { o << "the storage of " << *sp << " (with its object pointer) does not lie in one block obtained from a resource"; }); return false; }
        return true;
    }
    void new_inst(Spec* sp, void* p, uint64_t lineage, int value) {
        uintptr_t a = uintptr_t(p);
        if (!check_block(sp, p)) return;
        // overlap with a live instance (the object pointer precedes each mixin)
        auto lo = a - sizeof(void*), hi = a + sp->size();
        for (auto i = insts.begin(); i != insts.end(); ) {
            auto ilo = i->first - sizeof(void*), ihi = i->first + i->second.spec->size();
            if (ilo < hi && lo < ihi) {
                if (!i->second.spec->info.destroy) { i = insts.erase(i); continue; }
                softf([&](auto& o) { o << *sp << " is constructed over the live " << *i->second.spec; });
                return;
            }
            ++i;
        }
        Inst in{sp, next_uid++, lineage ? lineage : next_uid, value, false};
        fill(in, p);
        insts[a] = in;
    }
    // an instance which must be alive and unharmed
    Inst* need(Spec* sp, const void* p, const char* op, bool allow_moved = false) {
        auto in = find_inst(p);
        if (!in) { softf([&](auto& o) { o << op << " called on a dead " << *sp; }); return nullptr; }
        if (in->spec != sp) { softf([&](auto& o) { o << op << " of " << *sp << " called on an instance of " << *in->spec; }); return nullptr; }
        if (in->moved && !allow_moved) { softf([&](auto& o) { o << op << " called on a moved-out " << *sp; }); return nullptr; }
        if (!pattern_ok(*in, p)) { softf([&](auto& o) { o << op << ": the state of " << *sp << " was overwritten"; }); return nullptr; }
        return in;
    }
    void check_owner_of(Spec* sp, const void* p, const char* op) {
        if (!check_owner || !owner_hint) return;
        if (object_of(p) != owner_hint) softf([&](auto& o) { o << op << " of " << *sp << ": object_of does not give the owning object"; });
    }

    static Spec* spec_of(const mixin_info* info) { return reinterpret_cast<Spec*>(info->user_data); }

    // construct used by override functors
    void construct(Spec* sp, void* p, int value, Ev kind = Ev::ovr) {
        new_inst(sp, p, 0, value);
        auto in = find_inst(p);
        events.push_back({kind, sp, p, nullptr, in ? in->uid : 0, in ? in->lineage : 0});
    }

    static error_return_t cb_init(const mixin_info* info, void* p) {
        auto sp = spec_of(info); auto& w = *sp->w;
        if (info != &sp->info) w.soft("init called with a foreign info");
        w.check_owner_of(sp, p, "init");
        if (w.faults.point("init")) { if (w.faults.throwing) w.faults.raise("init"); return 42; }
        w.construct(sp, p, sp->def_value, Ev::init);
        return result_success;
    }
    static error_return_t cb_copy_init(const mixin_info* info, void* p, const void* src) {
        auto sp = spec_of(info); auto& w = *sp->w;
        w.check_owner_of(sp, p, "copy_init");
        auto f = w.need(sp, src, "copy_init (source)");
        if (!f) return result_success;
        if (w.faults.point("copy_init")) { if (w.faults.throwing) w.faults.raise("copy_init"); return 43; }
        w.new_inst(sp, p, 0, f->value);
        auto in = w.find_inst(p);
        w.events.push_back({Ev::copy_init, sp, p, src, in ? in->uid : 0, in ? in->lineage : 0});
        return result_success;
    }
    static error_return_t cb_copy_asgn(const mixin_info* info, void* p, const void* src) {
        auto sp = spec_of(info); auto& w = *sp->w;
        auto f = w.need(sp, src, "copy_asgn (source)");
        auto t = w.need(sp, p, "copy_asgn (target)");
        if (!f || !t) return result_success;
        if (w.faults.point("copy_asgn")) { if (w.faults.throwing) w.faults.raise("copy_asgn"); return 44; }
        t->value = f->value;
        w.events.push_back({Ev::copy_asgn, sp, p, src, t->uid, t->lineage});
        return result_success;
    }
    static void cb_move_init(const mixin_info* info, void* p, void* src) noexcept {
        auto sp = spec_of(info); auto& w = *sp->w;
        auto f = w.need(sp, src, "move_init (source)");
        if (!f) return;
        uint64_t lin = f->lineage; int v = f->value;
        f->moved = true;
        w.new_inst(sp, p, lin, v);
        auto in = w.find_inst(p);
        w.events.push_back({Ev::move_init, sp, p, src, in ? in->uid : 0, lin});
    }
    static void cb_move_asgn(const mixin_info* info, void* p, void* src) noexcept {
        auto sp = spec_of(info); auto& w = *sp->w;
        auto f = w.need(sp, src, "move_asgn (source)");
        auto t = w.need(sp, p, "move_asgn (target)");
        if (!f || !t) return;
        t->value = f->value;
        w.events.push_back({Ev::move_asgn, sp, p, src, t->uid, t->lineage});
    }
    static void cb_destroy(const mixin_info* info, void* p) noexcept {
        auto sp = spec_of(info); auto& w = *sp->w;
        auto in = w.need(sp, p, "destroy", true);
        if (!in) return;
        if (w.check_owner && w.owner_hint && !in->moved) w.check_owner_of(sp, p, "destroy");
        w.events.push_back({Ev::destroy, sp, p, nullptr, in->uid, in->lineage});
        w.insts.erase(uintptr_t(p));
    }
    // deliberately not consistent with each other
    static bool value_eq(int a, int b) { return (a ^ b) / 2 == 0; }
    static bool cb_equals(const mixin_info* info, const void* a, const void* b) noexcept {
        auto sp = spec_of(info); auto& w = *sp->w;
        auto x = w.need(sp, a, "equals"), y = w.need(sp, b, "equals");
        return x && y && value_eq(x->value, y->value);
    }
    static int value_cmp(int a, int b) { return a < b ? -1 : a > b ? 1 : 0; }
    static int cb_compare(const mixin_info* info, const void* a, const void* b) noexcept {
        auto sp = spec_of(info); auto& w = *sp->w;
        auto x = w.need(sp, a, "compare"), y = w.need(sp, b, "compare");
        return x && y ? value_cmp(x->value, y->value) * (1 + sp->idx % 3) : 0;
    }

    // ---- generation ----
    std::string_view gen_name(std::string& store, const char* kind, int idx, int style) {
        switch (style) {
        case 1: // a prefix of a buffer shared with other names
            if (names_buf.empty()) names_buf = std::string(64, 'p');
            return std::string_view(names_buf).substr(0, size_t(1 + idx));
        case 2: // embedded zero and high bytes
            store.clear();
            for (int n = int(s.range(1, 3)); n--; ) store += char(s.oneof({0x80, 0, int('a'), 0x7f, 0xff, 1}));
            if (s.flip()) store += char('a' + idx); // unique unless names coincide, which is fine too
            return store;
        case 4: // prefixes of each other in separate buffers
            store = std::string(size_t(1 + idx), 'p');
            return store;
        case 3: // long
            store = std::string(40, 'L') + kind + std::to_string(idx);
            return store;
        default:
            store = kind + std::to_string(idx);
            return store;
        }
    }

    Dom& add_dom(domain_settings st, bool own_res, std::string name = "dom") {
        auto d = std::make_unique<Dom>();
        d->w = this; d->idx = int(doms.size());
        d->name = name + std::to_string(d->idx);
        d->settings = st;
        if (own_res) { d->res = std::make_unique<Res>(this, "domain resource " + std::to_string(d->idx)); d->res->faulty = false; }
        d->d = own_res ? std::make_unique<domain>(d->name, st, 0, nullptr, allocator(d->res.get())) : std::make_unique<domain>(d->name, st);
        doms.push_back(std::move(d));
        return *doms.back();
    }
    Res& add_res() {
        res.push_back(std::make_unique<Res>(this, "object resource " + std::to_string(res.size())));
        return *res.back();
    }
    Feat& add_feat(Dom& d, std::string_view nm, bool clashes, bool has_default) {
        auto f = std::make_unique<Feat>();
        f->idx = int(feats.size());
        f->store = std::string(nm);
        f->nm = nm.data() == f->store.data() ? nm : std::string_view(f->store);
        f->info.name = dnmx_sv::from_std(f->nm);
        f->info.allow_clashes = clashes;
        if (has_default) f->info.default_payload = (void*)(uintptr_t(0x900000) + uintptr_t(f->idx));
        f->home = &d;
        feats.push_back(std::move(f));
        return *feats.back();
    }
    Spec& add_spec(Dom& d, uint32_t size, uint32_t align, uint32_t flags, bool with_alloc, bool force_ext) {
        auto m = std::make_unique<Spec>();
        m->w = this; m->home = &d; m->idx = int(specs.size());
        auto& i = m->info;
        i.set_size_alignment(size, align);
        i.user_data = uintptr_t(m.get());
        m->def_value = m->idx * 100;
        if (!(flags & no_init)) i.init = cb_init;
        if (!(flags & no_copy_init)) i.copy_init = cb_copy_init;
        if (!(flags & no_move_init)) i.move_init = cb_move_init;
        if (!(flags & no_copy_asgn)) i.copy_asgn = cb_copy_asgn;
        if (!(flags & no_move_asgn)) i.move_asgn = cb_move_asgn;
        if (!(flags & no_destroy)) i.destroy = cb_destroy;
        if (!(flags & no_equals)) i.equals = cb_equals;
        if (!(flags & no_compare)) i.compare = cb_compare;
        if (with_alloc) {
            m->alloc = std::make_unique<MAlloc>(this, "mixin allocator of M" + std::to_string(m->idx));
            i.allocator = m->alloc->to_c_hanlde();
        }
        i.force_external = force_ext;
        specs.push_back(std::move(m));
        return *specs.back();
    }
    void set_name(Spec& m, std::string_view nm) { m.nm = nm; m.info.name = dnmx_sv::from_std(nm); }
    void give(Spec& m, Feat& f, int32_t bid, int32_t prio, feature_payload pl = nullptr) {
        feature_for_mixin x;
        x.info = &f.info;
        x.payload = pl ? pl : (void*)(uintptr_t(0x100000) + uintptr_t(m.idx) * 256 + uintptr_t(f.idx));
        x.bid = bid; x.priority = prio;
        m.ffm.push_back(x); m.feats.push_back(&f);
        m.info.set_features({m.ffm.data(), m.ffm.size()});
    }
    // a random spec
    Spec& gen_spec(Dom& d, uint32_t missing_pct, bool allow_dep, bool plain_layout = false, bool big_layout = false) {
        static const std::vector<uint32_t> sizes = {8, 0, 1, 2, 4, 12, 16, 24, 40, 64, 100};
        static const std::vector<uint32_t> aligns = {8, 1, 2, 4, 16, 32, 64};
        uint32_t size = s.pick(sizes);
        uint32_t align = s.pick(aligns);
        if (big_layout && s.chance(1, 12)) { size = s.oneof({1000u, 256u, 4096u}); align = s.oneof({8u, 128u, 256u, 16u}); }
        if (size == 0 && s.chance(1, 2)) align = 0;
        if (size && align > 1) size = (size + align - 1) / align * align;
        if (plain_layout) { size = 8; align = 8; }
        uint32_t flags = 0;
        if (missing_pct) for (int b = 0; b < 8; ++b) if (s.chance(missing_pct, 100)) flags |= 1u << b;
        bool al = s.chance(15, 100), fe = s.chance(15, 100);
        auto& m = add_spec(d, size, align, flags, al, fe);
        m.info.order_priority = int32_t(s.oneof({0, 0, 1, -1, 2, -5, INT32_MIN, INT32_MAX}));
        if (allow_dep) m.info.dependency = s.chance(12, 100);
        VLOG("  M" << m.idx << " size " << size << " align " << align << " flags " << flags << (al ? " mixin-allocator" : "") << (fe ? " force-external" : "")
            << " order " << m.info.order_priority << (m.info.dependency ? " dependency" : ""));
        return m;
    }
    // the exact layout of a mixin
    void name_spec(Spec& m, int style) {
        set_name(m, gen_name(m.store, "mixin", m.idx, style));
        VLOG("  M" << m.idx << " name " << q(m.nm));
    }

    // ---- rules ----
    enum { r_add, r_remove, r_subst, r_to_back, r_excl, r_mand, r_err, r_throw, r_flip, r_rm_name, r_rev, r_dedup, r_clear, r_count };
    static const char* rule_name(int k) { static const char* n[] = {"add b if a", "remove a", "substitute a by b", "a to back", "a excluded by b", "mandatory a", "error if a", "throw if a", "flip a b", "remove b by name if a", "reverse order", "dedup", "clear"}; return n[k]; }
    Rule& add_rule_info(int kind, Spec* a, Spec* b, int32_t prio, std::string_view nm) {
        auto r = std::make_unique<Rule>();
        r->idx = int(rules.size()); r->kind = kind; r->a = a; r->b = b; r->w = this;
        r->nm = nm;
        r->info.name = dnmx_sv::from_std(nm);
        r->info.apply = cb_rule;
        r->info.user_data = uintptr_t(r.get());
        r->info.order_priority = prio;
        rules.push_back(std::move(r));
        return *rules.back();
    }
    static error_return_t cb_rule(dnmx_type_mutation_handle hm, uintptr_t ud) {
        auto& m = *type_mutation::from_c_handle(hm);
        auto& r = *reinterpret_cast<Rule*>(ud);
        auto& a = r.a->info; auto& b = r.b->info;
        switch (r.kind) {
        case r_add: if (m.has(a)) m.add_if_lacking(b); break;
        case r_remove: m.remove(a); break;
        case r_subst: if (m.remove(a)) m.add_if_lacking(b); break;
        case r_to_back: if (m.has(a)) m.to_back(a); break;
        case r_excl: if (m.has(b)) m.remove(a); break;
        case r_mand: m.add_if_lacking(a); break;
        case r_err: if (m.has(a)) return 13; break;
        case r_throw: if (m.has(a)) throw FaultEx("rule"); break;
        case r_flip: if (m.remove(a)) m.add_if_lacking(b); else if (m.remove(b)) m.add_if_lacking(a); break;
        case r_rm_name: if (m.has(a)) m.remove(r.b->nm); break;
        case r_rev: std::sort(m.mixins.begin(), m.mixins.end(), [](const mixin_info* x, const mixin_info* y) { return spec_of(x)->idx > spec_of(y)->idx; }); break;
        case r_dedup: m.dedup(); break;
        case r_clear: m.mixins.clear(); break;
        }
        return result_success;
    }
    static bool lhas(const List& l, const Spec* x) { return std::find(l.begin(), l.end(), x) != l.end(); }
    static bool lremove(List& l, const Spec* x) { auto i = std::find(l.begin(), l.end(), x); if (i == l.end()) return false; l.erase(i); return true; }
    static List ldedup(const List& l) { List o; for (size_t i = 0; i < l.size(); ++i) { bool later = false; for (size_t j = i + 1; j < l.size(); ++j) if (l[j] == l[i]) later = true; if (!later) o.push_back(l[i]); } return o; }
    // the same rule on the model's list; false: error
    Resolved::St model_rule(const Dom& d, const Rule& r, List& l) {
        auto a = r.a; auto b = r.b;
        auto addl = [&](Spec* x) { if (!lhas(l, x)) l.push_back(x); };
        switch (r.kind) {
        case r_add: if (lhas(l, a)) addl(b); break;
        case r_remove: lremove(l, a); break;
        case r_subst: if (lremove(l, a)) addl(b); break;
        case r_to_back: if (lremove(l, a)) l.push_back(a); break;
        case r_excl: if (lhas(l, b)) lremove(l, a); break;
        case r_mand: addl(a); break;
        case r_err: if (lhas(l, a)) return Resolved::rule_error; break;
        case r_throw: if (lhas(l, a)) return Resolved::rule_throw; break;
        case r_flip: if (lremove(l, a)) addl(b); else if (lremove(l, b)) addl(a); break;
        case r_rm_name:
            if (lhas(l, a)) { auto i = std::find_if(l.begin(), l.end(), [&](Spec* x) { return x->nm == b->nm; }); if (i != l.end()) l.erase(i); }
            break;
        case r_rev: std::sort(l.begin(), l.end(), [](Spec* x, Spec* y) { return x->idx > y->idx; }); break;
        case r_dedup: l = ldedup(l); break;
        case r_clear: l.clear(); break;
        }
        return Resolved::ok;
    }
    Resolved resolve(const Dom& d, const List& in) {
        Resolved r;
        List l;
        for (auto m : in) if (!m->info.dependency) l.push_back(m);
        auto rules = d.sorted_rules();
        List last = l;
        if (l != in) r.changed = true;
        // as many extra passes as there are rules, and not more than 5
        const size_t max_extra = std::min<size_t>(5, d.n_rules());
        for (size_t pass = 0; ; ++pass) {
            for (auto ru : rules) {
                auto st = model_rule(d, *ru, l);
                if (st != Resolved::ok) { r.st = st; return r; }
            }
            if (d.canon()) std::sort(l.begin(), l.end(), canon_less);
            if (l == last) break;
            r.changed = true;
            if (pass == max_extra) { r.st = Resolved::cyclic; return r; }
            last = l;
        }
        r.list = l;
        // validity of the result
        if (d.types.find(l) == d.types.end()) {
            for (size_t i = 0; i < l.size(); ++i) {
                if (l[i]->reg != &d) { r.st = Resolved::invalid; return r; }
                for (size_t j = i + 1; j < l.size(); ++j) if (l[i] == l[j]) { r.st = Resolved::invalid; return r; }
            }
            for (auto& f : feats) if (clash(l, *f)) { r.st = Resolved::invalid; return r; }
        }
        return r;
    }
    // ---- features ----
    std::vector<PayloadRef> model_ftable(const List& l, const Feat& f) {
        std::vector<PayloadRef> v;
        for (size_t i = 0; i < l.size(); ++i) for (auto& x : l[i]->ffm) if (x.info == &f.info) v.push_back({i, &x});
        // insertion sort by the documented order
        for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0; --j) {
            auto& p = v[j - 1]; auto& c = v[j];
            bool before = c.f->bid != p.f->bid ? c.f->bid > p.f->bid
                : c.f->priority != p.f->priority ? c.f->priority < p.f->priority
                : c.mixin > p.mixin;
            if (!before) break;
            std::swap(p, c);
        }
        return v;
    }
    bool clash(const List& l, const Feat& f) {
        if (f.info.allow_clashes) return false;
        auto v = model_ftable(l, f);
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j)
            if (v[i].f->bid == v[j].f->bid && v[i].f->priority == v[j].f->priority) return true;
        return false;
    }

    // ---- verification ----
    void verify_type(const type& t, const List& l, Dom& d) {
        VEQ(&t.dom, d.d.get(), "domain of type " << l);
        VEQ(size_t(t.num_mixins()), l.size(), "number of mixins of type " << l);
        VEQ(t.mixins.size(), l.size(), "mixins of type " << l);
        for (size_t i = 0; i < l.size(); ++i) VCHECK(t.mixins[i] == &l[i]->info, "mixin at " << i << " of type " << l << " is " << *spec_of(t.mixins[i]));
        for (auto& m : specs) {
            if (m->home != &d) continue;
            auto it = std::find(l.begin(), l.end(), m.get());
            bool in = it != l.end();
            auto ix = in ? mixin_index_t(it - l.begin()) : invalid_mixin_index;
            VEQ(t.has(m->info), in, "type " << l << " has(info of " << *m << ")");
            VEQ(t.lacks(m->info), !in, "type " << l << " lacks(info of " << *m << ")");
            VEQ(t.has(m->info.id), in, "type " << l << " has(id of " << *m << ")");
            VEQ(t.lacks(m->info.id), !in, "type " << l << " lacks(id of " << *m << ")");
            VEQ(t.index_of(m->info.id), ix, "type " << l << " index_of(id of " << *m << ")");
            // names: exact when unique
            bool shared = false;
            for (auto x : l) if (x != m.get() && x->nm == m->nm) shared = true;
            if (!shared) {
                VEQ(t.index_of(m->nm), ix, "type " << l << " index_of(name " << q(m->nm) << ")");
                VEQ(t.has(m->nm), in, "type " << l << " has(name " << q(m->nm) << ")");
                VEQ(t.lacks(m->nm), !in, "type " << l << " lacks(name " << q(m->nm) << ")");
            }
            else VCHECK(t.has(m->nm), "type " << l << " has(shared name " << q(m->nm) << ")");
        }
        for (uint32_t far : {1000u, 0x7fffffffu, 0xfffffffeu, 0xffffffffu}) VCHECK(!t.has(mixin_id{far}), "type " << l << " has mixin id " << far);
        VCHECK(!t.has(std::string_view("no such mixin")), "unknown name");
        VCHECK(l.empty() || !t.has(std::string_view(l[0]->nm.data(), l[0]->nm.size() - (l[0]->nm.empty() ? 0 : 1))) || [&] { for (auto x : l) if (x->nm == l[0]->nm.substr(0, l[0]->nm.size() - (l[0]->nm.empty() ? 0 : 1))) return true; return false; }(), "a proper prefix of a name is found in type " << l);
        verify_ftable(t, l, d);
        // memory of the type
        if (d.res && !l.empty()) {
            auto b = d.res->block_of(uintptr_t(&t), sizeof(type));
            VCHECK(b != nullptr, "type " << l << " does not lie in a block of the domain's allocator");
            VCHECK(d.res->block_of(uintptr_t(t.mixins.data()), t.mixins.size() * sizeof(void*)), "the mixins of type " << l << " are not in memory of the domain's allocator");
        }
        verify_traits(t, l);
    }
    void verify_traits(const type& t, const List& l) {
        bool dc = true, cc = true, ca = true, cmp = true, eq = true;
        for (auto m : l) {
            if (!m->info.init) dc = false;
            if (!m->info.copy_init) cc = false;
            if (!m->info.copy_asgn) ca = false;
            if (!m->info.compare) cmp = false;
            if (!m->info.compare && !m->info.equals) eq = false;
        }
        VEQ(t.default_constructible(), dc, "default_constructible of " << l);
        VEQ(t.copy_constructible(), cc, "copy_constructible of " << l);
        VEQ(t.copy_assignable(), ca, "copy_assignable of " << l);
        VEQ(t.copyable(), cc && ca, "copyable of " << l);
        VEQ(t.comparable(), cmp, "comparable of " << l);
        VEQ(t.equality_comparable(), eq, "equality_comparable of " << l);
    }
    void verify_ftable(const type& t, const List& l, Dom& d) {
        for (auto& f : feats) {
            if (f->home != &d) continue;
            auto v = model_ftable(l, *f);
            auto fe = t.ftable_at(f->info.id);
            if (v.empty()) {
                VCHECK(!fe, "type " << l << " has an ftable entry for F" << f->idx << " which no mixin provides");
            }
            else {
                VCHECK(fe, "type " << l << " has no ftable entry for F" << f->idx);
                VEQ(size_t(fe.end - fe.begin), v.size(), "number of payloads of F" << f->idx << " in " << l);
                size_t top = 0;
                for (size_t i = 0; i < v.size(); ++i) {
                    VCHECK(fe.begin[i].mixin_index == v[i].mixin && fe.begin[i].data == v[i].f && fe.begin[i].payload == v[i].f->payload,
                        "payload " << i << " of F" << f->idx << " in " << l << " comes from mixin " << fe.begin[i].mixin_index << ", expected " << v[i].mixin);
                    VCHECK(bool(fe.begin[i]) == (v[i].f->payload != nullptr), "payload " << i << " of F" << f->idx << " in " << l << " tells wrongly whether it is null");
                    if (v[i].f->bid == v[0].f->bid) top = i;
                }
                VEQ(size_t(fe.top_bid_back - fe.begin), top, "top bid end of F" << f->idx << " in " << l);
            }
            VEQ(t.implements_strong(f->info), !v.empty(), "implements_strong(F" << f->idx << ") of " << l);
            VEQ(t.implements_strong(f->info.id), !v.empty(), "implements_strong(id of F" << f->idx << ") of " << l);
            bool by_name = false;
            for (auto x : l) for (auto y : x->feats) if (y->nm == f->nm) by_name = true;
            VEQ(t.implements_strong(f->nm), by_name, "implements_strong(name of F" << f->idx << ") of " << l);
            VEQ(t.implements(f->info), !v.empty() || f->info.default_payload, "implements(F" << f->idx << ") of " << l);
            // next implementers
            for (auto& m : specs) {
                if (m->home != &d || m->reg != &d) continue;
                size_t at = v.size();
                for (size_t i = 0; i < v.size(); ++i) if (l[v[i].mixin] == m.get()) { at = i; break; }
                const feature_for_mixin* want = at + 1 < v.size() ? v[at + 1].f : nullptr;
                auto n = t.find_next_implementer(f->info, m->info);
                VCHECK((n ? n->data : nullptr) == want, "next implementer of F" << f->idx << " after " << *m << " in " << l);
                auto set = t.find_next_bidder_set(f->info, m->info);
                size_t b = at;
                if (b < v.size()) { auto bid = v[b].f->bid; while (b < v.size() && v[b].f->bid == bid) ++b; }
                size_t e = b;
                while (e < v.size() && v[e].f->bid == v[b].f->bid) ++e;
                VEQ(set.size(), e - b, "size of the next bidder set of F" << f->idx << " after " << *m << " in " << l);
                for (size_t i = b; i < e; ++i) VCHECK(set[i - b].data == v[i].f, "next bidder set of F" << f->idx << " after " << *m << " in " << l << " at " << i - b);
            }
        }
        for (uint32_t far : {500u, 0xffffffffu}) { VCHECK(!t.ftable_at(feature_id{far}), "ftable entry for unused id"); VCHECK(!t.implements_strong(feature_id{far}), "implements unused id"); }
    }

    size_t count_objs(const type* t) { size_t n = 0; for (auto& o : objs) if (o->o && o->t == t && !o->m.empty()) ++n; return n; }

    void verify_dom(Dom& d, bool deep) {
        VEQ(d.d->num_types(), d.types.size(), "number of types of the domain");
        for (auto& x : d.types) VEQ(x.second->num_objects(), count_objs(x.second), "object count of type " << x.first);
        VEQ(d.d->num_mutation_rules(), d.n_rules(), "number of added rules");
        VEQ(size_t(d.d->get_empty_type().num_mixins()), size_t(0), "mixins of the empty type");
        if (!deep) return;
        for (auto& x : d.types) verify_type(*x.second, x.first, d);
        verify_type(d.d->get_empty_type(), {}, d);
        verify_registry(d);
        verify_traverse(d);
    }
    void verify_registry(Dom& d) {
        const bool uniq_m = !d.settings.allow_duplicate_mixin_names, uniq_f = !d.settings.allow_duplicate_feature_names;
        for (uint32_t i = 0; i < d.mixins.size() + 3; ++i) {
            auto want = i < d.mixins.size() ? d.mixins[i] : nullptr;
            VCHECK(d.d->get_mixin_info(mixin_id{i}) == (want ? &want->info : nullptr), "mixin with id " << i);
            if (!want) continue;
            VEQ(want->info.id.i, i, "id of " << *want);
            VCHECK(want->info.dom == d.d->to_c_hanlde() && domain_from_info(want->info) == d.d.get(), "domain of registered " << *want);
            auto by = d.d->get_mixin_info(want->nm);
            if (uniq_m) VCHECK(by == &want->info, "lookup of " << *want << " by name " << q(want->nm));
            else VCHECK(by && sv(by->name) == want->nm, "lookup of " << *want << " by name " << q(want->nm));
        }
        VCHECK(!d.d->get_mixin_info(mixin_id{0xffffffffu}), "invalid mixin id found");
        for (uint32_t i = 0; i < d.feats.size() + 3; ++i) {
            auto want = i < d.feats.size() ? d.feats[i] : nullptr;
            VCHECK(d.d->get_feature_info(feature_id{i}) == (want ? &want->info : nullptr), "feature with id " << i);
            if (!want) continue;
            VEQ(want->info.id.i, i, "id of F" << want->idx);
            auto by = d.d->get_feature_info(want->nm);
            if (uniq_f) VCHECK(by == &want->info, "lookup of F" << want->idx << " by name " << q(want->nm));
            else VCHECK(by && sv(by->name) == want->nm, "lookup of F" << want->idx << " by name " << q(want->nm));
        }
        VCHECK(!d.d->get_feature_info(feature_id{0xffffffffu}), "invalid feature id found");
        for (auto& m : specs) if (!m->reg) {
            VEQ(m->info.id.i, dnmx_invalid_id, "id of the unregistered " << *m);
            VCHECK(!m->info.registered(), "registered() of the unregistered " << *m);
            if (m->home == &d) {
                VCHECK(!m->info.dom && !domain_from_info(m->info), "domain of the unregistered " << *m);
                auto by = d.d->get_mixin_info(m->nm);
                VCHECK(by != &m->info && (!by || spec_of(by)->reg == &d), "unregistered " << *m << " found by name");
            }
        }
        for (auto& f : feats) if (f->home == &d && !f->registered) {
            VEQ(f->info.id.i, dnmx_invalid_id, "id of the unregistered F" << f->idx);
            VCHECK(d.d->get_feature_info(f->nm) != &f->info, "unregistered F" << f->idx << " found by name");
        }
        for (auto& t : tcs) {
            TC* want = nullptr;
            for (auto r : d.tcs) if (r->nm == t->nm) want = r;
            VCHECK(d.d->get_type_class(t->nm) == (want ? &want->info : nullptr), "type class by name " << q(t->nm) << (want ? " is not found" : " is found"));
        }
        VCHECK(!d.d->get_type_class("no such type class"), "unknown type class found");
    }
    void verify_traverse(Dom& d) {
        domain_traverse tr(*d.d);
        std::vector<const mixin_info*> ms; tr.traverse_mixins([&](const mixin_info& m) { ms.push_back(&m); });
        std::vector<const mixin_info*> wm; for (auto m : d.mixins) if (m) wm.push_back(&m->info);
        std::sort(ms.begin(), ms.end()); std::sort(wm.begin(), wm.end());
        VCHECK(ms == wm, "traversed mixins: " << ms.size() << ", registered: " << wm.size());
        std::vector<const feature_info*> fs, wf; tr.traverse_features([&](const feature_info& f) { fs.push_back(&f); });
        for (auto f : d.feats) if (f) wf.push_back(&f->info);
        std::sort(fs.begin(), fs.end()); std::sort(wf.begin(), wf.end());
        VCHECK(fs == wf, "traversed features: " << fs.size() << ", registered: " << wf.size());
        std::vector<const type_class*> cs, wc; tr.traverse_type_classes([&](const type_class& c) { cs.push_back(&c); });
        for (auto c : d.tcs) wc.push_back(&c->info);
        std::sort(cs.begin(), cs.end()); std::sort(wc.begin(), wc.end());
        VCHECK(cs == wc, "traversed type classes: " << cs.size() << ", registered: " << wc.size());
        std::map<const mutation_rule_info*, uint32_t> rs; size_t nr = 0, foreign = 0;
        tr.traverse_mutation_rules([&](const mutation_rule_info& r, uint32_t c) {
            ++nr;
            if (r.apply != cb_rule) ++foreign; else rs[&r] = c;
        });
        VEQ(nr, d.n_rules(), "traversed rules");
        VEQ(foreign, size_t(d.canon()), "rules added by the domain itself");
        for (auto& r : d.rules) { auto i = rs.find(&r.first->info); VCHECK(i != rs.end() && int(i->second) == r.second, "rule R" << r.first->idx << " traversed with count " << (i == rs.end() ? 0 : i->second) << ", added " << r.second); }
        std::vector<const type*> ts, wt; tr.traverse_types([&](const type& t) { ts.push_back(&t); });
        for (auto& t : d.types) wt.push_back(t.second);
        std::sort(ts.begin(), ts.end()); std::sort(wt.begin(), wt.end());
        VCHECK(ts == wt, "traversed types: " << ts.size() << ", existing: " << wt.size());
        // stored queries: each once, and each one true
        std::set<List> qs; size_t nq = 0;
        tr.traverse_type_queries([&](itlib::span<const mixin_info* const> qm, const type& t) {
            ++nq;
            List l; for (auto m : qm) {
                bool known = false; for (auto& sp : specs) if (&sp->info == m) known = true;
                VCHECK(known, "a stored query mentions an unknown mixin");
                l.push_back(spec_of(m));
            }
            VCHECK(qs.insert(l).second, "query " << l << " is stored twice");
            auto r = resolve(d, l);
            VCHECK(r.st == Resolved::ok, "a query " << l << " is stored but its request must fail");
            if (r.list.empty()) VCHECK(&t == &d.d->get_empty_type(), "stored query " << l << " does not lead to the empty type");
            else {
                auto i = d.types.find(r.list);
                VCHECK(i != d.types.end() && i->second == &t, "stored query " << l << " does not lead to the type " << r.list);
            }
        });
        VEQ(nq, d.d->num_type_queries(), "traversed queries");
    }

    // an object against its model
    void verify_obj(Obj& ob) {
        s.sync();
        auto& o = *ob.o; const object& co = o;
        VCHECK(&o.get_type() == ob.t, "type of O" << ob.idx);
        VCHECK(&o.get_domain() == ob.dom->d.get(), "domain of O" << ob.idx);
        VEQ(o.empty(), ob.m.empty(), "empty() of O" << ob.idx);
        VEQ(o.sealed(), ob.sealed, "sealed() of O" << ob.idx);
        VEQ(size_t(o.num_mixins()), ob.m.size(), "num_mixins of O" << ob.idx);
        if (ob.res != default_res || default_tracked) VCHECK(o.get_allocator().resource() == ob.res, "allocator of O" << ob.idx);
        for (size_t i = 0; i < ob.m.size(); ++i) {
            auto& m = ob.m[i];
            VCHECK(ob.t->mixins[i] == &m.spec->info, "mixin " << i << " of O" << ob.idx << "'s type");
            void* p = o.get_at(mixin_index_t(i));
            VCHECK(p && p == o.unchecked_get_at(mixin_index_t(i)), "get_at(" << i << ") of O" << ob.idx);
            VCHECK(co.get_at(mixin_index_t(i)) == p, "const get_at");
            VCHECK(o.get(m.spec->info) == p && co.get(m.spec->info) == p, "get(info) of " << *m.spec << " in O" << ob.idx);
            VCHECK(o.get(m.spec->info.id) == p && co.get(m.spec->info.id) == p, "get(id) of " << *m.spec << " in O" << ob.idx);
            bool shared = false;
            for (auto& x : ob.m) if (x.spec != m.spec && x.spec->nm == m.spec->nm) shared = true;
            if (!shared) VCHECK(o.get(m.spec->nm) == p && co.get(m.spec->nm) == p, "get(name) of " << *m.spec << " in O" << ob.idx);
            VCHECK(object_of(p) == &o, "object_of " << *m.spec << " is not its owner O" << ob.idx);
            VCHECK(object_of((const void*)p) == &o, "const object_of");
            auto in = find_inst(p);
            VCHECK(in, *m.spec << " of O" << ob.idx << " is not alive");
            VCHECK(in->spec == m.spec, "O" << ob.idx << " has an instance of " << *in->spec << " in place of " << *m.spec);
            VCHECK(!in->moved, *m.spec << " of O" << ob.idx << " is moved out");
            VCHECK(pattern_ok(*in, p), "state of " << *m.spec << " of O" << ob.idx << " was overwritten");
            VEQ(in->lineage, m.lineage, *m.spec << " of O" << ob.idx << " is another instance");
            VEQ(in->value, m.value, "value of " << *m.spec << " of O" << ob.idx);
            if (m.spec->ext() && m.addr) VCHECK(p == m.addr, "the external " << *m.spec << " of O" << ob.idx << " changed its address");
            if (m.spec->info.alignment > 1) VCHECK(uintptr_t(p) % m.spec->info.alignment == 0, *m.spec << " of O" << ob.idx << " is misaligned");
            // where it lives
            const size_t lo = sizeof(void*);
            if (m.spec->alloc) VCHECK(m.spec->alloc->res.block_of(uintptr_t(p) - lo, m.spec->size() + lo), *m.spec << " of O" << ob.idx << " is not in its mixin allocator's memory");
            else if (ob.res != default_res || default_tracked) {
                auto b = ob.res->block_of(uintptr_t(p) - lo, m.spec->size() + lo);
                VCHECK(b, *m.spec << " of O" << ob.idx << " is not in its object's memory");
            }
        }
        VCHECK(!o.get_at(mixin_index_t(ob.m.size())), "get_at beyond the end");
        for (auto& sp : specs) {
            if (sp->home != ob.dom) continue;
            bool in = ob.find(sp.get()) >= 0;
            VEQ(o.has(sp->info), in, "O" << ob.idx << " has " << *sp);
            VEQ(o.has(sp->info.id), in, "O" << ob.idx << " has id of " << *sp);
            if (!in) VCHECK(!o.get(sp->info) && !o.get(sp->info.id), "O" << ob.idx << " gives a mixin it lacks: " << *sp);
            bool by_name = false; for (auto& x : ob.m) if (x.spec->nm == sp->nm) by_name = true;
            VEQ(o.has(sp->nm), by_name, "O" << ob.idx << " has name " << q(sp->nm));
            if (!by_name) VCHECK(!o.get(sp->nm), "O" << ob.idx << " gives a mixin it lacks by name " << q(sp->nm));
        }
        if ((ob.res != default_res || default_tracked) && !ob.m.empty()) {
            // internal mixins and object data: one buffer of the size and alignment the type states
            size_t internal = 0; for (auto& m : ob.m) if (!m.spec->ext()) ++internal;
            for (size_t i = 0; i < ob.m.size(); ++i) {
                auto& m = ob.m[i];
                if (m.spec->ext()) continue;
                auto p = uintptr_t(o.unchecked_get_at(mixin_index_t(i)));
                auto b = ob.res->block_of(p, m.spec->size());
                VCHECK(b && b->size == ob.t->object_buffer_size, "internal " << *m.spec << " of O" << ob.idx << " lies outside the object buffer");
            }
        }
    }
    // all memory and all live instances are accounted for by the known objects
    void verify_world() {
        s.sync();
        std::set<uintptr_t> seen;
        std::map<Res*, std::multiset<std::pair<size_t, size_t>>> want;
        for (auto& r : res) want[r.get()];
        for (auto& sp : specs) if (sp->alloc) want[&sp->alloc->res];
        for (auto& ob : objs) {
            if (!ob->o) continue;
            verify_obj(*ob);
            for (size_t i = 0; i < ob->m.size(); ++i) {
                auto p = ob->o->get_at(mixin_index_t(i));
                VCHECK(seen.insert(uintptr_t(p)).second, "two mixins at one address");
                auto& in = ob->m[i].spec->info;
                if (ob->m[i].spec->alloc) want[&ob->m[i].spec->alloc->res].insert({in.obj_buf_size, in.obj_buf_alignment_and_mixin_offset});
                else if (ob->m[i].spec->ext() && ob->res) want[ob->res].insert({in.obj_buf_size, in.obj_buf_alignment_and_mixin_offset});
            }
            if (ob->res && !ob->m.empty()) want[ob->res].insert({ob->t->object_buffer_size, ob->t->object_buffer_alignment});
        }
        for (auto& in : insts) {
            if (seen.count(in.first)) continue;
            if (!in.second.spec->info.destroy) continue; // nothing tells the end of its life
            VFAIL("an instance of " << *in.second.spec << " is alive but no object has it");
        }
        for (auto& x : want) {
            if (x.first == default_res && (!default_tracked || !strict_default)) continue;
            std::multiset<std::pair<size_t, size_t>> have;
            for (auto& b : x.first->live) have.insert({b.second.size, b.second.align});
            if (have != x.second) {
                std::ostringstream o; o << x.first->name << ": blocks held {";
                for (auto& b : have) o << b.first << "/" << b.second << " ";
                o << "} expected for the living objects {";
                for (auto& b : x.second) o << b.first << "/" << b.second << " ";
                o << "}";
                VFAIL(o.str());
            }
        }
    }

    // end of a case: destroy everything and check that nothing is left
    void finish() {
        s.sync();
        for (auto& o : objs) if (o->o) { owner_hint = o->o.get(); o->o.reset(); o->m.clear(); }
        owner_hint = nullptr;
        s.sync();
        objs.clear();
        verify_world();
        for (auto& d : doms) {
            verify_dom(*d, false);
            d->d.reset();
            s.sync();
            if (d->res) VCHECK(d->res->live.empty(), d->res->live.size() << " blocks of the domain's allocator are not returned when it is destroyed");
        }
    }
};

inline Res::~Res() {
    for (auto& b : live) { VP_UNPOISON(b.second.raw, b.second.raw_size); }
}
inline void* Res::do_allocate(size_t size, size_t align) {
    if (on_alloc) on_alloc(size);
    if (faulty && w->faults.point("allocation")) throw std::bad_alloc();
    if (align == 0 || (align & (align - 1))) {
        w->softf([&](auto& o) { o << name << ": allocation with alignment " << align << " which is no power of two"; });
        align = 16;
    }
    ++total;
    // aligned to exactly align, so that nothing gets more than it asked for
    size_t raw_size = size + 3 * align + 32;
    char* raw = (char*)malloc(raw_size);
    uintptr_t a = (uintptr_t(raw) + 16 + align - 1) / align * align;
    if (a % (2 * align) == 0) a += align;
    memset(raw, 0xCD, raw_size);
    VP_POISON(raw, a - uintptr_t(raw));
    // the tail: poison whole granules beyond the end
    VP_POISON((char*)a + size, raw_size - (a - uintptr_t(raw)) - size);
    live[a] = {size, align, raw, raw_size};
    return (void*)a;
}
inline void Res::do_deallocate(void* p, size_t size, size_t align) {
    auto i = live.find(uintptr_t(p));
    if (i == live.end()) { w->softf([&](auto& o) { o << name << ": a block of size " << size << " is returned here which is not held (returned twice, or taken from another resource)"; }); return; }
    if (i->second.size != size || i->second.align != align)
        w->softf([&](auto& o) { o << name << ": a block taken with size " << i->second.size << " align " << i->second.align << " is returned with size " << size << " align " << align; });
    // instances inside
    auto lo = i->first, hi = i->first + i->second.size;
    for (auto k = w->insts.lower_bound(lo); k != w->insts.end() && k->first <= hi; ) {
        // a zero-size mixin may sit at the very end
        bool inside = k->first < hi || (k->first == hi && k->second.spec->size() == 0);
        if (!inside) { ++k; continue; }
        if (k->second.spec->info.destroy) { w->softf([&](auto& o) { o << name << ": a block is returned while " << *k->second.spec << " lives in it"; }); return; }
        k = w->insts.erase(k);
    }
    Block b = i->second;
    live.erase(i);
    VP_UNPOISON(b.raw, b.raw_size);
    memset(b.raw, 0xDD, b.raw_size);
    free(b.raw);
}
}
