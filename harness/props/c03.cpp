// C03: messages declared and defined by macros, called by functions, with nested next-implementer and next-bidder calls.
#include "common.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/declare_mixin.hpp>

namespace c03 {
using namespace pt;

// counts its copies
struct Arg {
    int v; bool gone = false;
    static inline long copies = 0;
    struct Mk { int v; };
    Arg(Mk m) : v(m.v) {}
    Arg(const Arg& o) : v(o.v), gone(o.gone) { ++copies; }
    Arg(Arg&& o) noexcept : v(o.v), gone(o.gone) { o.gone = true; }
    Arg& operator=(const Arg&) = delete;
};
using Log = std::vector<int>;
using Ptr = std::unique_ptr<int>;
class Ob : public object { public: using object::object; };
}

using c03::Arg; using c03::Log; using c03::Ptr; using c03::Ob; using dynamix::object;

DYNAMIX_DECLARE_SIMPLE_MSG(s_uni, int(object&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(s_multi, int(object&, int));
DYNAMIX_DECLARE_MSG(uni_val_msg, uni_val, int, (Ob&, Arg));
DYNAMIX_DECLARE_MSG(mul_val_msg, mul_val, int, (Ob&, Arg, int));
DYNAMIX_DECLARE_MSG(c_uni_msg, c_uni, int, (const Ob&, const Arg&, Log&));
DYNAMIX_DECLARE_MSG(c_mul_msg, c_mul, int, (const object&, Arg, Log&));
DYNAMIX_DECLARE_MSG(vd_msg, vd, void, (object&, Log&));
DYNAMIX_DECLARE_MSG(noarg_msg, noarg, int, (object&));
DYNAMIX_DECLARE_MSG(mo_msg, mo, int, (object&, Ptr));
DYNAMIX_DECLARE_MSG(many_msg, many, int, (const object&, double, const std::string&, Arg, Log&, Arg*, char, Arg));
DYNAMIX_DECLARE_MSG(uni_over_msg, uni_val, int, (const Ob&, int));
DYNAMIX_DECLARE_MSG(ref_msg, rf, int&, (object&));
DYNAMIX_DECLARE_MSG(rv_msg, rv, int, (object&, Arg&&));
DYNAMIX_DECLARE_SIMPLE_MSG(s_def, int(const Ob&, Log&));

#include <dynamix/msg/func_traits.hpp>
DYNAMIX_MAKE_FUNC_TRAITS(uni_val);
DYNAMIX_MAKE_FUNC_TRAITS(mul_val);
DYNAMIX_MAKE_FUNC_TRAITS(c_uni);
DYNAMIX_MAKE_FUNC_TRAITS(c_mul);
DYNAMIX_MAKE_FUNC_TRAITS(vd);
DYNAMIX_MAKE_FUNC_TRAITS(noarg);
DYNAMIX_MAKE_FUNC_TRAITS(mo);
DYNAMIX_MAKE_FUNC_TRAITS(many);
DYNAMIX_MAKE_FUNC_TRAITS(rf);
DYNAMIX_MAKE_FUNC_TRAITS(rv);

#include <dynamix/msg/next_impl.hpp>
#include <dynamix/dm_this.hpp>

namespace c03 {
constexpr int NM = 14, NK = 5;
template <typename Msg> constexpr int idx_of = -1;
#define IDX(m, i) template <> constexpr int idx_of<m> = i;
IDX(s_uni, 0) IDX(s_multi, 1) IDX(uni_val_msg, 2) IDX(mul_val_msg, 3) IDX(c_uni_msg, 4) IDX(c_mul_msg, 5) IDX(vd_msg, 6)
IDX(noarg_msg, 7) IDX(mo_msg, 8) IDX(many_msg, 9) IDX(uni_over_msg, 10) IDX(ref_msg, 11) IDX(rv_msg, 12) IDX(s_def, 13)
#undef IDX
//                                       0 1 2 3 4 5 6 7 8 9 10 11 12 13
constexpr bool multicast[NM]          = {0,1,0,1,0,1,1,0,0,1,0, 0, 0, 0};
constexpr bool clashes[NM]            = {1,1,1,1,0,1,0,1,1,1,1, 0, 1, 0};
constexpr bool has_default[NM]        = {0,0,0,0,1,1,0,0,0,0,0, 1, 0, 1};
constexpr int by_value[NM]            = {0,0,1,1,0,1,0,0,0,2,0, 0, 0, 0}; // parameters of class Arg
constexpr bool move_only[NM]          = {0,0,0,0,0,0,0,0,1,0,0, 0, 1, 0};
constexpr bool is_int[NM]             = {1,1,1,1,1,1,0,1,1,1,1, 0, 1, 1};
const char* const msg_names[NM] = {"s_uni","s_multi","uni_val_msg","mul_val_msg","c_uni_msg","c_mul_msg","vd_msg","noarg_msg","mo_msg","many_msg","uni_over_msg","ref_msg","rv_msg","s_def"};

enum OpKind { next_impl, next_set, next_top, other_impl, other_set };
struct Op { int kind; bool guarded, moving; };
struct Act { std::vector<Op> ops; bool throws = false; };
struct Boom { int at; };
struct Event {
    int msg, mixin; const void* self; const object* obj; bool has_impl, has_set; std::vector<uint64_t> args;
    bool operator==(const Event& o) const { return msg == o.msg && mixin == o.mixin && self == o.self && obj == o.obj && has_impl == o.has_impl && has_set == o.has_set && args == o.args; }
};
struct State {
    Act plan[NK][NM];
    std::vector<Event> got, want;
    const object* expect_obj = nullptr;
};
State* st;

// what a callee sees of an argument
inline uint64_t val(int v) { return uint64_t(int64_t(v)); }
inline uint64_t val(char v) { return uint64_t(int64_t(v)); }
inline uint64_t val(double v) { uint64_t r; memcpy(&r, &v, 8); return r; }
inline uint64_t val(const std::string& v) { return vp::hash_str(v.c_str()) + v.size(); }
inline uint64_t val(const Arg& a) { return a.gone ? ~uint64_t(0) : uint64_t(int64_t(a.v)); }
inline uint64_t val(const Ptr& p) { return p ? uint64_t(int64_t(*p)) : ~uint64_t(0); }
inline uint64_t val(const Log&) { return 0; }
inline uint64_t val(Arg* p) { return uint64_t(uintptr_t(p)); }
template <typename P> void dig(std::vector<uint64_t>& d, const std::remove_reference_t<P>& v) {
    d.push_back(val(v));
    if (std::is_reference_v<P>) d.push_back(uint64_t(uintptr_t(&v)));
}

template <typename Msg, typename Sig = typename Msg::signature> struct E;
template <typename Msg, typename R, typename O, typename... P> struct E<Msg, R(O, P...)> {
    static constexpr int m = idx_of<Msg>;
    template <typename Self> static R enter(Self* self, P&&... p) {
        constexpr int i = std::remove_const_t<Self>::index;
        Event e{m, i, self, dm_of(self), has_next_impl_msg<Msg>(self), has_next_bidder_set<Msg>(self), {}};
        (dig<P>(e.args, p), ...);
        st->got.push_back(e);
        const Act& act = st->plan[i][m];
        if (act.throws) throw Boom{i * NM + m};
        unsigned r = unsigned(i * 100 + m);
        int* ref = nullptr;
        auto put = [&](auto&& call) {
            if constexpr (std::is_void_v<R>) call();
            else if constexpr (std::is_reference_v<R>) ref = &call();
            else r = r * 3u + unsigned(call());
        };
        for (auto& o : act.ops) {
            switch (o.kind) {
            case next_impl:
                if (o.guarded && !e.has_impl) break;
                if (o.moving) put([&]() -> R { return call_next_impl_msg<Msg>(self, std::forward<P>(p)...); });
                else if constexpr (!move_only[m]) put([&]() -> R { return call_next_impl_msg<Msg>(self, p...); });
                break;
            case next_top:
                if (o.guarded && !e.has_set) break;
                if (o.moving) put([&]() -> R { return call_next_bidder_top<Msg>(self, std::forward<P>(p)...); });
                else if constexpr (!move_only[m]) put([&]() -> R { return call_next_bidder_top<Msg>(self, p...); });
                break;
            case next_set:
                if constexpr (!move_only[m]) {
                    if (o.guarded && !e.has_set) break;
                    if (o.moving) put([&]() -> R { return call_next_bidder_set<Msg>(self, std::forward<P>(p)...); });
                    else put([&]() -> R { return call_next_bidder_set<Msg>(self, p...); });
                }
                break;
            default:
                if constexpr (m == 1) {
                    using Other = s_uni;
                    if (o.kind == other_impl) { if (o.guarded && !has_next_impl_msg<Other>(self)) break; r = r * 3u + unsigned(call_next_impl_msg<Other>(self, p...)); }
                    else { if (o.guarded && !has_next_bidder_set<Other>(self)) break; r = r * 3u + unsigned(call_next_bidder_set<Other>(self, p...)); }
                }
            }
        }
        if constexpr (std::is_void_v<R>) return;
        else if constexpr (std::is_reference_v<R>) return ref ? *ref : self->cell;
        else return int(r);
    }
    template <typename Self> static const object* dm_of(Self* self) { return object_of(self); }
    static R entered(O o, P&&... p) { // the default implementation
        Event e{m, -1, nullptr, &o, false, false, {}};
        (dig<P>(e.args, p), ...);
        st->got.push_back(e);
        if constexpr (std::is_void_v<R>) return;
        else if constexpr (std::is_reference_v<R>) { static int cell; return cell; }
        else return 7000 + m;
    }
};

template <int I> struct K {
    static constexpr int index = I;
    std::string own = std::string(size_t(3 + I * 9), char('a' + I));
    int cell = I;
    int uni_val(Arg a) { return E<uni_val_msg>::enter(this, std::move(a)); }
    int uni_val(int x) const { return E<uni_over_msg>::enter(this, std::move(x)); }
    int mul_val(Arg a, int x) { return E<mul_val_msg>::enter(this, std::move(a), std::move(x)); }
    int c_uni(const Arg& a, Log& l) const { return E<c_uni_msg>::enter(this, a, l); }
    int c_mul(Arg a, Log& l) const { return E<c_mul_msg>::enter(this, std::move(a), l); }
    void vd(Log& l) { E<vd_msg>::enter(this, l); }
    int noarg() { return E<noarg_msg>::enter(this); }
    int mo(Ptr p) { return E<mo_msg>::enter(this, std::move(p)); }
    int many(double d, const std::string& t, Arg a, Log& l, Arg* p, char c, Arg b) const { return E<many_msg>::enter(this, std::move(d), t, std::move(a), l, std::move(p), std::move(c), std::move(b)); }
    int& rf() { return E<ref_msg>::enter(this); }
    int rv(Arg&& a) { return E<rv_msg>::enter(this, std::move(a)); }
};
const mixin_info* cur[NK];
template <int I> const mixin_info& _dynamix_get_mixin_info(const K<I>*) { return *cur[I]; }

int def_c_uni(const Ob& o, const Arg& a, Log& l) { return E<c_uni_msg>::entered(o, a, l); }
int& def_rf(object& o) { return E<ref_msg>::entered(o); }
}

#include <dynamix/msg/define_msg.hpp>
DYNAMIX_DEFINE_SIMPLE_MSG(s_uni, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG(s_multi, multicast);
DYNAMIX_DEFINE_MSG(uni_val_msg, unicast, uni_val, int, (Ob&, Arg));
DYNAMIX_DEFINE_MSG(mul_val_msg, multicast, mul_val, int, (Ob&, Arg, int));
DYNAMIX_DEFINE_MSG_EX(c_uni_msg, unicast, false, c03::def_c_uni, c_uni, int, (const Ob&, const Arg&, Log&));
DYNAMIX_DEFINE_MSG_EX(c_mul_msg, multicast, true, [](const object& o, Arg a, Log& l) { return c03::E<c_mul_msg>::entered(o, std::move(a), l); }, c_mul, int, (const object&, Arg, Log&));
DYNAMIX_DEFINE_MSG_EX(vd_msg, multicast, false, nullptr, vd, void, (object&, Log&));
DYNAMIX_DEFINE_MSG(noarg_msg, unicast, noarg, int, (object&));
DYNAMIX_DEFINE_MSG(mo_msg, unicast, mo, int, (object&, Ptr));
DYNAMIX_DEFINE_MSG(many_msg, multicast, many, int, (const object&, double, const std::string&, Arg, Log&, Arg*, char, Arg));
DYNAMIX_DEFINE_MSG(uni_over_msg, unicast, uni_val, int, (const Ob&, int));
DYNAMIX_DEFINE_MSG_EX(ref_msg, unicast, false, c03::def_rf, rf, int&, (object&));
DYNAMIX_DEFINE_MSG(rv_msg, unicast, rv, int, (object&, Arg&&));
DYNAMIX_DEFINE_SIMPLE_MSG_EX(s_def, unicast, false, [](const Ob& o, Log& l) { return c03::E<s_def>::entered(o, l); });

namespace c03 {
const feature_info* const infos[NM] = {&s_uni::info, &s_multi::info, &uni_val_msg::info, &mul_val_msg::info, &c_uni_msg::info, &c_mul_msg::info, &vd_msg::info,
    &noarg_msg::info, &mo_msg::info, &many_msg::info, &uni_over_msg::info, &ref_msg::info, &rv_msg::info, &s_def::info};

template <int I> void implement(util::mixin_info_data_builder<K<I>>& b, int m, util::builder_perks p) {
    switch (m) {
    case 0: b.template implements_by<s_uni>([](K<I>* k, int x) { return E<s_uni>::enter(k, std::move(x)); }, p); break;
    case 1: { auto f = [](K<I>* k, int x) { return E<s_multi>::enter(k, std::move(x)); }; b.template implements_by<s_multi>(f, p); break; }
    case 2: b.template implements<uni_val_msg>(p); break;
    case 3: b.template implements<mul_val_msg>(p); break;
    case 4: b.template implements<c_uni_msg>(p); break;
    case 5: b.template implements<c_mul_msg>(p); break;
    case 6: b.template implements<vd_msg>(p); break;
    case 7: b.template implements<noarg_msg>(p); break;
    case 8: b.template implements<mo_msg>(p); break;
    case 9: b.template implements<many_msg>(p); break;
    case 10: b.template implements<uni_over_msg>(p); break;
    case 11: b.template implements<ref_msg>(p); break;
    case 12: b.template implements<rv_msg>(p); break;
    case 13: b.template implements_by<s_def>([](const K<I>* k, Log& l) { return E<s_def>::enter(k, l); }, p); break;
    }
}
template <typename Msg> void impl_checks(const type& t, bool strong, bool weak, const char* nm) {
    VEQ(t.implements_strong<Msg>(), strong, "implements_strong<" << nm << ">");
    VEQ(t.implements<Msg>(), weak, "implements<" << nm << ">");
}

struct Ent { int mixin, bid, prio, pos; };
struct Feature_missing {};

struct Model {
    std::vector<Ent> table[NM];
    const object* obj;
    const void* self[NK];
    int* cells[NK];
    long copies = 0;
    std::vector<uint64_t> args;
    int find(int m, int i) const { for (size_t k = 0; k < table[m].size(); ++k) if (table[m][k].mixin == i) return int(k); return -1; }
    std::pair<int, int> next_range(int m, int i) const { // the next bidder set
        int k = find(m, i); if (k < 0) return {0, 0};
        auto& t = table[m]; int n = int(t.size()), b = k;
        while (b < n && t[b].bid == t[k].bid) ++b;
        int e = b; while (e < n && t[e].bid == t[b].bid) ++e;
        return {b, e};
    }
    bool has_impl(int m, int i) const { int k = find(m, i); return k >= 0 && size_t(k) + 1 < table[m].size(); }
    bool has_set(int m, int i) const { auto r = next_range(m, i); return r.first < r.second; }
    unsigned enter(int m, int i, int*& ref) {
        st->want.push_back({m, i, self[i], obj, has_impl(m, i), has_set(m, i), args});
        auto& act = st->plan[i][m];
        if (act.throws) throw Boom{i * NM + m};
        unsigned r = unsigned(i * 100 + m);
        int* rr = nullptr;
        for (auto& o : act.ops) {
            int mm = o.kind >= other_impl ? 0 : m;
            bool set = o.kind == next_set || o.kind == next_top || o.kind == other_set;
            if (o.guarded && !(set ? has_set(mm, i) : has_impl(mm, i))) continue;
            r = r * 3u + nested(o.kind, mm, i, o.moving, rr);
        }
        ref = rr ? rr : cells[i];
        return r;
    }
    unsigned nested(int kind, int m, int i, bool moving, int*& ref) {
        auto& t = table[m];
        if (kind == next_impl || kind == other_impl) {
            if (!has_impl(m, i)) throw Feature_missing{};
            if (!moving) copies += by_value[m];
            return enter(m, t[size_t(find(m, i)) + 1].mixin, ref);
        }
        auto r = next_range(m, i);
        if (r.first == r.second) throw Feature_missing{};
        if (kind != next_top) for (int k = r.second - 1; k != r.first; --k) { copies += by_value[m]; int* x; enter(m, t[size_t(k)].mixin, x); }
        if (!moving) copies += by_value[m];
        return enter(m, t[size_t(r.first)].mixin, ref);
    }
    unsigned top(int m, int*& ref) {
        auto& t = table[m];
        if (t.empty()) {
            if (!has_default[m]) throw Feature_missing{};
            st->want.push_back({m, -1, nullptr, obj, false, false, args});
            ref = nullptr;
            return unsigned(7000 + m);
        }
        if (multicast[m]) {
            size_t e = 0; while (e < t.size() && t[e].bid == t[0].bid) ++e;
            for (size_t k = e - 1; k > 0; --k) { copies += by_value[m]; int* x; enter(m, t[k].mixin, x); }
        }
        return enter(m, t[0].mixin, ref);
    }
};

std::string show_ev(const Event& e) {
    std::ostringstream o;
    o << "(" << msg_names[e.msg] << " in " << (e.mixin < 0 ? std::string("default") : "K" + std::to_string(e.mixin)) << " self " << e.self << " object " << e.obj << (e.has_impl ? " next" : "") << (e.has_set ? " set" : "") << " args";
    for (auto a : e.args) o << " " << int64_t(a);
    o << ")"; return o.str();
}

void messages(vp::Src& s) {
    State state; st = &state;
    recres res;
    domain d("c03", {}, 0, nullptr, alc(res));
    for (auto f : infos) const_cast<feature_info*>(f)->id = invalid_feature_id; // what a failed case left
    util::mixin_info_data data[NK];
    std::vector<Ent> impl[NM]; // what each mixin implements
    // features registered early get other ids
    while (s.chance(1, 3)) { int m = int(s.index(NM)); auto& fi = const_cast<feature_info&>(*infos[m]); if (fi.id == invalid_feature_id) d.register_feature(fi); }
    auto mk = [&](auto kk) {
        using KK = decltype(kk); constexpr int i = KK::index;
        std::string nm = "K" + std::to_string(i);
        util::mixin_info_data_builder<KK> b(data[i], std::string_view(""));
        b.store_name(nm);
        cur[i] = &data[i].info;
        uint32_t which = 0; int density = int(1 + s.draw(3));
        for (int m = 0; m < NM; ++m) if (s.draw(4) < uint64_t(density)) which |= 1u << m;
        int rot = int(s.draw(NM));
        for (int q = 0; q < NM; ++q) {
            int m = (q + rot) % NM;
            if (!(which >> m & 1)) continue;
            static const int bids[] = {0, 0, 0, 1, -1, 2, INT32_MAX, INT32_MIN};
            int bid = bids[s.index(8)], prio = s.chance(1, 4) ? bids[s.index(8)] : 0;
            implement(b, m, util::builder_literals::feature_bid_priority(bid, prio));
            impl[m].push_back({i, bid, prio, 0});
            VLOG(nm << " implements " << msg_names[m] << " bid " << bid << " priority " << prio);
            Act& a = state.plan[i][m];
            if (s.chance(1, 12)) { a.throws = true; VLOG("  and throws"); }
            for (int n = int(s.weighted({4, 4, 2})); n--; ) {
                Op o{int(s.index(m == 1 ? 5 : 3)), s.flip(), false};
                if (s.chance(1, 3)) o.guarded = true;
                if (n == 0 && o.kind < other_impl) o.moving = move_only[m] || s.flip();
                if (move_only[m] && (o.kind == next_set || n > 0)) continue;
                a.ops.push_back(o);
                static const char* const opn[] = {"calls the next implementer", "calls the next bidder set", "calls the next bidder", "calls the next implementer of the other message", "calls the next bidder set of the other message"};
                VLOG("  and " << opn[o.kind] << (o.guarded ? " if any" : "") << (o.moving ? ", moving" : ""));
            }
        }
    };
    mk(K<0>()); mk(K<1>()); mk(K<2>()); mk(K<3>()); mk(K<4>());
    int order[NK] = {0, 1, 2, 3, 4};
    for (int i = NK - 1; i > 0; --i) std::swap(order[i], order[s.index(size_t(i) + 1)]);
    for (int i : order) d.register_mixin(data[i].info);

    struct Thing { std::unique_ptr<Ob> o; std::vector<int> mix; };
    std::vector<Thing> obs;
    for (int i = 0; i < 2; ++i) obs.push_back({std::make_unique<Ob>(d, alc(res)), {}});
    auto table_of = [&](const std::vector<int>& mix, int m, bool& bad) {
        std::vector<Ent> t;
        for (size_t p = 0; p < mix.size(); ++p) for (auto& e : impl[m]) if (e.mixin == mix[p]) { auto x = e; x.pos = int(p); t.push_back(x); }
        // higher bids first, then lower priorities first, then later mixins first
        std::sort(t.begin(), t.end(), [](const Ent& a, const Ent& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.pos > b.pos; });
        if (!clashes[m]) for (size_t k = 1; k < t.size(); ++k) if (t[k].bid == t[k - 1].bid && t[k].prio == t[k - 1].prio) bad = true;
        return t;
    };
    while (s.more(8)) {
        vp::Src::Op op(s);
        auto& th = obs[s.index(obs.size())];
        if (s.chance(1, 3)) {
            std::vector<int> mix; std::vector<const mixin_info*> q;
            uint32_t used = 0;
            for (int n = int(s.draw(NK + 1)); n--; ) { int i = int(s.index(NK)); if (!(used >> i & 1)) { used |= 1u << i; mix.push_back(i); q.push_back(cur[i]); } }
            bool bad = false;
            for (int m = 0; m < NM; ++m) table_of(mix, m, bad);
            VLOG("object " << (&th - obs.data()) << " gets a type of " << mix.size() << " mixins" << (bad ? ", which clash" : ""));
            int oc = outcome([&] { th.o->reset_type(d.get_type(q)); });
            VOC(oc, bad ? oc_type : oc_ok, "a type");
            if (!bad) th.mix = mix;
            continue;
        }
        Model md;
        md.obj = th.o.get();
        const type& t = th.o->get_type();
        bool bad = false;
        size_t widest = 0;
        for (int m = 0; m < NM; ++m) md.table[m] = table_of(th.mix, m, bad);
        Ob& o = *th.o;
        memset(md.self, 0, sizeof md.self);
#define SELF(I) if (auto k = o.get<K<I>>()) { md.self[I] = k; md.cells[I] = &k->cell; VCHECK(k->own == std::string(size_t(3 + I * 9), char('a' + I)), "a mixin is what it was"); VCHECK(object_of(k) == &o, "object of a mixin"); }
        SELF(0) SELF(1) SELF(2) SELF(3) SELF(4)
        int m = int(s.index(NM));
        // prefer messages somebody implements
        for (int tries = 0; tries < 3 && md.table[m].size() < 2; ++tries) m = int(s.index(NM));
        { bool st_ = !md.table[m].empty(), wk = st_ || has_default[m];
          if (infos[m]->id != invalid_feature_id) switch (m) {
            case 0: impl_checks<s_uni>(t, st_, wk, msg_names[m]); break; case 3: impl_checks<mul_val_msg>(t, st_, wk, msg_names[m]); break; case 4: impl_checks<c_uni_msg>(t, st_, wk, msg_names[m]); break;
            case 5: impl_checks<c_mul_msg>(t, st_, wk, msg_names[m]); break; case 13: impl_checks<s_def>(t, st_, wk, msg_names[m]); break; default: break; } }
        state.got.clear(); state.want.clear();
        // the arguments
        int v = int(s.range(-3, 100)), w = int(s.range(0, 9)); double dv = double(s.range(-9, 9)) / 4; std::string str(s.draw(40), 's');
        Log log; Arg a1(Arg::Mk{v}), a2(Arg::Mk{w}); bool temp = s.flip(), fn = s.flip(); char ch = char('a' + w);
        auto& ar = md.args;
        switch (m) {
        case 0: case 1: case 10: dig<int>(ar, v); break;
        case 2: dig<Arg>(ar, a1); break;
        case 3: dig<Arg>(ar, a1); dig<int>(ar, w); break;
        case 4: dig<const Arg&>(ar, a1); dig<Log&>(ar, log); break;
        case 5: dig<Arg>(ar, a1); dig<Log&>(ar, log); break;
        case 6: case 13: dig<Log&>(ar, log); break;
        case 8: ar.push_back(uint64_t(int64_t(v))); break;
        case 9: dig<double>(ar, dv); dig<const std::string&>(ar, str); dig<Arg>(ar, a1); dig<Log&>(ar, log); dig<Arg*>(ar, &a2); dig<char>(ar, ch); dig<Arg>(ar, a2); break;
        case 12: dig<Arg&&>(ar, a1); break;
        default: break;
        }
        widest = md.table[m].size();
        VLOG("object " << (&th - obs.data()) << " " << msg_names[m] << " with " << widest << " implementers" << (temp ? ", temporary arguments" : "") << (fn ? ", by function" : ""));
        // the model
        int want = oc_ok; unsigned wres = 0; int wboom = -1; int* wref = nullptr;
        try { wres = md.top(m, wref); }
        catch (Feature_missing&) { want = oc_feature; }
        catch (Boom& b) { want = oc_other; wboom = b.at; }
        if (!temp) md.copies += by_value[m];
        // the call
        unsigned gres = 0; int gboom = -1; int* gref = nullptr;
        Arg::copies = 0;
        auto A1 = [&]() -> Arg&& { return std::move(a1); };
        int oc = outcome([&] {
            try {
                switch (m) {
                case 0: gres = unsigned(s_uni::call(o, v)); break;
                case 1: gres = unsigned(s_multi::call(o, v)); break;
                case 2: gres = unsigned(fn ? (temp ? uni_val(o, A1()) : uni_val(o, a1)) : (temp ? uni_val_msg::call(o, A1()) : uni_val_msg::call(o, a1))); break;
                case 3: gres = unsigned(fn ? (temp ? mul_val(o, A1(), w) : mul_val(o, a1, w)) : (temp ? mul_val_msg::call(o, A1(), w) : mul_val_msg::call(o, a1, w))); break;
                case 4: gres = unsigned(fn ? c_uni(o, a1, log) : c_uni_msg::call(o, a1, log)); break;
                case 5: gres = unsigned(fn ? (temp ? c_mul(o, A1(), log) : c_mul(o, a1, log)) : (temp ? c_mul_msg::call(o, A1(), log) : c_mul_msg::call(o, a1, log))); break;
                case 6: if (fn) vd(o, log); else vd_msg::call(o, log); break;
                case 7: gres = unsigned(fn ? noarg(o) : noarg_msg::call(o)); break;
                case 8: gres = unsigned(fn ? mo(o, std::make_unique<int>(v)) : mo_msg::call(o, std::make_unique<int>(v))); break;
                case 9: gres = unsigned(fn ? (temp ? many(o, dv, str, A1(), log, &a2, ch, Arg(Arg::Mk{w})) : many(o, dv, str, a1, log, &a2, ch, a2))
                                           : (temp ? many_msg::call(o, dv, str, A1(), log, &a2, ch, Arg(Arg::Mk{w})) : many_msg::call(o, dv, str, a1, log, &a2, ch, a2))); break;
                case 10: gres = unsigned(fn ? uni_val(const_cast<const Ob&>(o), v) : uni_over_msg::call(o, v)); break;
                case 11: gref = &(fn ? rf(o) : ref_msg::call(o)); break;
                case 12: gres = unsigned(fn ? rv(o, A1()) : rv_msg::call(o, A1())); break;
                default: gres = unsigned(s_def::call(o, log)); break;
                }
            }
            catch (Boom& b) { gboom = b.at; throw; }
        });
        VOC(oc, want, msg_names[m]);
        VEQ(gboom, wboom, "where it throws");
        for (size_t k = 0; k < std::max(state.got.size(), state.want.size()); ++k) {
            if (k >= state.got.size()) VFAIL(msg_names[m] << ": call " << k << " is missing: " << show_ev(state.want[k]));
            if (k >= state.want.size()) VFAIL(msg_names[m] << ": call " << k << " is not expected: " << show_ev(state.got[k]));
            VCHECK(state.got[k] == state.want[k], msg_names[m] << ": call " << k << " is " << show_ev(state.got[k]) << ", expected " << show_ev(state.want[k]));
        }
        VEQ(Arg::copies, md.copies, msg_names[m] << ": copies of the arguments");
        if (want == oc_ok && is_int[m]) VEQ(gres, wres, msg_names[m] << ": result");
        if (want == oc_ok && m == 11 && wref) VCHECK(gref == wref, "the reference returned");
        if (state.want.size() > 1) s.interesting();
        s.label(want == oc_ok ? "message served" : want == oc_feature ? "message lacking" : "a callee throws");
    }
    obs.clear();
    for (auto& x : data) d.unregister_mixin(x.info);
    for (auto f : infos) if (f->id != invalid_feature_id) d.unregister_feature(const_cast<feature_info&>(*f));
    st = nullptr;
}

vp::Reg r("C03", vp::Part{"macro messages", "14 messages made by the macros (uni- and multicast, simple and named, const, overloaded, 0 to 7 arguments by value, reference, rvalue and move-only, void and reference results, default implementations, clash policies) implemented by random subsets of 5 mixin classes with random bids and priorities; callees make random nested next-implementer and next-bidder calls or throw: the sequence of callees with object, instance and arguments, the result, exceptions and the number of argument copies are compared with a model; non-trivial: a call reaches more than one callee", messages, 120000, 5000000});
}
