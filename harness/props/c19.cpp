// C19: v1 messages, next bidders, default implementations and combinators against a model.
#include "common.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <algorithm>
#include <tuple>

namespace c19 {
using namespace pt;
namespace v1 = dynamix::v1compat;
struct Arg { // knows that it was moved from
    int v; bool gone = false;
    explicit Arg(int v) : v(v) {}
    Arg(const Arg&) = default;
    Arg(Arg&& o) noexcept : v(o.v), gone(o.gone) { o.gone = true; }
    Arg& operator=(const Arg&) = delete;
};
using Log = std::vector<int>;
using Ptr = std::unique_ptr<int>;
struct Truth { int v; explicit operator bool() const { return v & 1; } };
using Len = long long;
}
using c19::Arg; using c19::Log; using c19::Ptr; using c19::Truth; using c19::Len;

DYNAMIX_V1_MESSAGE_0(int, c19_u0);
DYNAMIX_V1_CONST_MESSAGE_1(int, c19_u1, Arg, a);
DYNAMIX_V1_MESSAGE_2(void, c19_u2, const Arg&, a, Log&, l);
DYNAMIX_V1_EXPORTED_MESSAGE_3(, int, c19_u3, Arg&&, a, Arg*, p, Ptr, q);
DYNAMIX_V1_EXPORTED_CONST_MESSAGE_4(, double, c19_u4, char, a, const std::string&, b, Arg, c, Log&, d);
DYNAMIX_V1_CONST_MESSAGE_5(int, c19_u5, char, a, double, b, const std::string&, c, Arg, d, Arg, e);
DYNAMIX_V1_MULTICAST_MESSAGE_0(bool, c19_m0);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_0(bool, c19_m0);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_1(int, c19_m1, Arg, a);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, c19_m1, Arg, a);
DYNAMIX_V1_MULTICAST_MESSAGE_2(double, c19_m2, const Arg&, a, Log&, l);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2(double, c19_m2, const Arg&, a, Log&, l);
DYNAMIX_V1_EXPORTED_CONST_MULTICAST_MESSAGE_3(, Len, c19_m3, Arg, a, Arg, b, int, c);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_3(Len, c19_m3, Arg, a, Arg, b, int, c);
DYNAMIX_V1_EXPORTED_MULTICAST_MESSAGE_4(, void, c19_m4, Log&, a, double, b, const std::string&, c, Arg, d);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_5(Truth, c19_m5, Arg, a, Arg&, b, std::string, c, char, d, Arg, e);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_5(Truth, c19_m5, Arg, a, Arg&, b, std::string, c, char, d, Arg, e);
DYNAMIX_V1_MESSAGE_1_OVERLOAD(c19_uo, int, c19_u0, int, a);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_2_OVERLOAD(c19_mo, int, c19_m1, int, a, std::string, b);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2_OVERLOAD(c19_mo, int, c19_m1, int, a, std::string, b);
DYNAMIX_V1_MESSAGE_1(int, c19_du, Arg, a);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_2(int, c19_dm, Arg, a, const Arg&, b);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2(int, c19_dm, Arg, a, const Arg&, b);
DYNAMIX_V1_CONST_MESSAGE_0(void, c19_dv);
DYNAMIX_V1_MULTICAST_MESSAGE_3_OVERLOAD(c19_do, double, c19_m1, Arg, a, Arg, b, Log&, c);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_3_OVERLOAD(c19_do, double, c19_m1, Arg, a, Arg, b, Log&, c);
DYNAMIX_V1_EXPORTED_CONST_MESSAGE_1_OVERLOAD(, c19_xo, int, c19_u0, const Arg&, a);

namespace c19 {
// name, default implementation
#define MSGS(X) X(c19_u0, 0) X(c19_u1, 0) X(c19_u2, 0) X(c19_u3, 0) X(c19_u4, 0) X(c19_u5, 0) X(c19_m0, 0) X(c19_m1, 0) X(c19_m2, 0) X(c19_m3, 0) X(c19_m4, 0) X(c19_m5, 0) \
    X(c19_uo, 0) X(c19_mo, 0) X(c19_du, 1) X(c19_dm, 1) X(c19_dv, 1) X(c19_do, 1) X(c19_xo, 0)
enum {
#define X(m, d) i_##m,
    MSGS(X)
#undef X
    NM
};
constexpr int NK = 6;
template <typename Msg> constexpr int idx_of = -1;
#define X(m, d) template <> constexpr int idx_of<m##_msg_t> = i_##m;
MSGS(X)
#undef X
#define X(m, d) m##_msg_t::multicast,
const bool multicast[NM] = { MSGS(X) };
#undef X
#define X(m, d) d,
const bool has_default[NM] = { MSGS(X) };
#undef X
#define X(m, d) #m,
const char* const names[NM] = { MSGS(X) };
#undef X

struct Boom { int at; };
struct Act { int r; int next = 0; bool guarded = false, throws = false; }; // next: calls of the next bidder, the last one moves
struct Event {
    int msg, mixin; const void* self; const void* obj; bool has; std::vector<uint64_t> args;
    bool operator==(const Event& o) const { return msg == o.msg && mixin == o.mixin && self == o.self && obj == o.obj && has == o.has && args == o.args; }
};
struct State { Act plan[NK + 1][NM]; std::vector<Event> got, want; std::vector<double> got_next, want_next; };
State* st;

uint64_t val(int v) { return uint64_t(int64_t(v)); }
uint64_t val(char v) { return uint64_t(int64_t(v)); }
uint64_t val(double v) { uint64_t r; memcpy(&r, &v, 8); return r; }
uint64_t val(const std::string& v) { return vp::hash_str(v.c_str()) + v.size(); }
uint64_t val(const Arg& a) { return a.gone ? ~uint64_t(0) : uint64_t(int64_t(a.v)); }
uint64_t val(const Ptr& p) { return p ? uint64_t(int64_t(*p)) : ~uint64_t(0); }
uint64_t val(const Log&) { return 0; }
uint64_t val(Arg* p) { return uint64_t(uintptr_t(p)); }
template <typename P> void dig(std::vector<uint64_t>& d, const std::remove_reference_t<P>& v) {
    d.push_back(val(v));
    if (std::is_reference_v<P>) d.push_back(uint64_t(uintptr_t(&v)));
}
template <typename R> R conv(int r) {
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_same_v<R, bool>) return r & 1;
    else if constexpr (std::is_same_v<R, double>) return r * 0.5;
    else if constexpr (std::is_same_v<R, Truth>) return Truth{r};
    else return R(r);
}
double num(bool r) { return r; }
double num(double r) { return r; }
double num(int r) { return r; }
double num(Len r) { return double(r); }
double num(Truth r) { return r.v; }

template <typename Msg, typename Sig = typename Msg::signature> struct E;
template <typename Msg, typename R, typename O, typename... P> struct E<Msg, R(O, P...)> {
    static constexpr int m = idx_of<Msg>;
    static constexpr bool move_only = ((std::is_same_v<P, Ptr> || std::is_rvalue_reference_v<P>) || ...);
    static constexpr Msg* tag = nullptr;
    template <typename Self> static R enter(Self* self, P&&... p) {
        constexpr int i = std::remove_const_t<Self>::index;
        bool has = v1::has_next_bidder(tag, self);
        st->got.push_back({m, i, self, v1::object::of(self), has, {}});
        (dig<P>(st->got.back().args, p), ...);
        auto& act = st->plan[i][m];
        if (act.throws) throw Boom{i * NM + m};
        auto next = [&](auto&& call) { if constexpr (std::is_void_v<R>) { call(); st->got_next.push_back(0); } else st->got_next.push_back(num(call())); };
        if (!act.guarded || has) for (int k = act.next; k; --k) {
            if (k == 1) {
                if constexpr (!(Msg::multicast && move_only)) next([&]() -> R { return v1::call_next_bidder(tag, self, std::forward<P>(p)...); });
            }
            else if constexpr (!move_only) next([&]() -> R { return v1::call_next_bidder(tag, self, p...); });
        }
        // what was given by value is used up
        [[maybe_unused]] auto use = [](auto&& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Arg> && !std::is_const_v<std::remove_reference_t<decltype(x)>>) Arg y(std::move(x)); };
        ((std::is_reference_v<P> ? void() : use(p)), ...);
        return conv<R>(act.r);
    }
    static R entered(const void* o, P&&... p) {
        st->got.push_back({m, -1, nullptr, o, false, {}});
        (dig<P>(st->got.back().args, p), ...);
        if (st->plan[NK][m].throws) throw Boom{NK * NM + m};
        return conv<R>(st->plan[NK][m].r);
    }
};

template <int I> struct K {
    static constexpr int index = I;
    std::string own = std::string(size_t(3 + I * 9), char('a' + I));
    int c19_u0() { return E<c19_u0_msg_t>::enter(this); }
    int c19_u0(int a) { return E<c19_uo_msg_t>::enter(this, std::move(a)); }
    int c19_u0(const Arg& a) const { return E<c19_xo_msg_t>::enter(this, a); }
    int c19_u1(Arg a) const { return E<c19_u1_msg_t>::enter(this, std::move(a)); }
    void c19_u2(const Arg& a, Log& l) { E<c19_u2_msg_t>::enter(this, a, l); }
    int c19_u3(Arg&& a, Arg* p, Ptr q) { return E<c19_u3_msg_t>::enter(this, std::move(a), std::move(p), std::move(q)); }
    double c19_u4(char a, const std::string& b, Arg c, Log& d) const { return E<c19_u4_msg_t>::enter(this, std::move(a), b, std::move(c), d); }
    int c19_u5(char a, double b, const std::string& c, Arg d, Arg e) const { return E<c19_u5_msg_t>::enter(this, std::move(a), std::move(b), c, std::move(d), std::move(e)); }
    bool c19_m0() { return E<c19_m0_msg_t>::enter(this); }
    int c19_m1(Arg a) const { return E<c19_m1_msg_t>::enter(this, std::move(a)); }
    int c19_m1(int a, std::string b) const { return E<c19_mo_msg_t>::enter(this, std::move(a), std::move(b)); }
    double c19_m1(Arg a, Arg b, Log& c) { return E<c19_do_msg_t>::enter(this, std::move(a), std::move(b), c); }
    double c19_m2(const Arg& a, Log& l) { return E<c19_m2_msg_t>::enter(this, a, l); }
    Len c19_m3(Arg a, Arg b, int c) const { return E<c19_m3_msg_t>::enter(this, std::move(a), std::move(b), std::move(c)); }
    void c19_m4(Log& a, double b, const std::string& c, Arg d) { E<c19_m4_msg_t>::enter(this, a, std::move(b), c, std::move(d)); }
    Truth c19_m5(Arg a, Arg& b, std::string c, char d, Arg e) const { return E<c19_m5_msg_t>::enter(this, std::move(a), b, std::move(c), std::move(d), std::move(e)); }
    int c19_du(Arg a) { return E<c19_du_msg_t>::enter(this, std::move(a)); }
    int c19_dm(Arg a, const Arg& b) const { return E<c19_dm_msg_t>::enter(this, std::move(a), b); }
    void c19_dv() const { E<c19_dv_msg_t>::enter(this); }
};
const mixin_info* cur[NK];
template <int I> const mixin_info& _dynamix_get_mixin_info(const K<I>*) { return *cur[I]; }
}

DYNAMIX_V1_DEFINE_MESSAGE(c19_u0);
DYNAMIX_V1_DEFINE_MESSAGE(c19_u1);
DYNAMIX_V1_DEFINE_MESSAGE(c19_u2);
DYNAMIX_V1_DEFINE_MESSAGE(c19_u3);
DYNAMIX_V1_DEFINE_MESSAGE(c19_u4);
DYNAMIX_V1_DEFINE_MESSAGE(c19_u5);
DYNAMIX_V1_DEFINE_MESSAGE(c19_m0);
DYNAMIX_V1_DEFINE_MESSAGE(c19_m1);
DYNAMIX_V1_DEFINE_MESSAGE(c19_m2);
DYNAMIX_V1_DEFINE_MESSAGE(c19_m3);
DYNAMIX_V1_DEFINE_MESSAGE(c19_m4);
DYNAMIX_V1_DEFINE_MESSAGE(c19_m5);
DYNAMIX_V1_DEFINE_MESSAGE(c19_uo);
DYNAMIX_V1_DEFINE_MESSAGE(c19_mo);
DYNAMIX_V1_DEFINE_MESSAGE(c19_xo);
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, c19_du, Arg, a) { return c19::E<c19_du_msg_t>::entered(&dm_self, std::move(a)); }
DYNAMIX_V1_DEFINE_MESSAGE_2_WITH_DEFAULT_IMPL(int, c19_dm, Arg, a, const Arg&, b) { return c19::E<c19_dm_msg_t>::entered(&dm_self, std::move(a), b); }
DYNAMIX_V1_DEFINE_MESSAGE_0_WITH_DEFAULT_IMPL(void, c19_dv) { c19::E<c19_dv_msg_t>::entered(&dm_self); }
DYNAMIX_V1_DEFINE_MESSAGE_3_WITH_DEFAULT_IMPL(double, c19_do, Arg, a, Arg, b, Log&, c) { return c19::E<c19_do_msg_t>::entered(&dm_self, std::move(a), std::move(b), c); }

namespace c19 {
#define X(m, d) &m##_msg_t::info,
const feature_info* const infos[NM] = { MSGS(X) };
#undef X

// a mixin gets a message in one of the ways of v1
template <typename KK, typename Msg> void implement(vp::Src& s, v1::feature_parser<KK>& p, Msg* tag, int bid, int prio) {
    constexpr bool voidp = true; (void)voidp;
    if (!bid && !prio && s.flip()) { p & tag; return; }
    switch (s.draw(5)) {
    case 0: p & v1::upriority(prio, v1::bid(bid, tag)); break;
    case 1: p & v1::bid(bid, v1::upriority(prio, tag)); break;
    case 2: p & v1::priority(prio, v1::bid(bid, tag)); break;
    case 3: p & v1::bid(bid, v1::priority(prio, tag)); break;
    case 4: if (!prio) { p & v1::bid(bid, tag) & v1::none; break; } [[fallthrough]];
    default: if (!bid) p & v1::none & v1::upriority(prio, tag); else p & v1::bid(bid, v1::bid(bid ^ 1, v1::upriority(prio, tag))); break;
    }
}
template <typename KK> void implement_any(vp::Src& s, v1::feature_parser<KK>& p, int m, int bid, int prio) {
    if (!bid && !prio && s.chance(1, 3)) { // bound functions
        if (m == i_c19_u0) { p & v1::bind(c19_u0_msg, [](void* k) { return E<c19_u0_msg_t>::enter(static_cast<KK*>(k)); }); return; }
        if (m == i_c19_m1) { p & v1::bind(c19_m1_msg, [](const void* k, Arg a) { return E<c19_m1_msg_t>::enter(static_cast<const KK*>(k), std::move(a)); }); return; }
        if (m == i_c19_dm) { p & v1::bind(c19_dm_msg, +[](const void* k, Arg a, const Arg& b) { return E<c19_dm_msg_t>::enter(static_cast<const KK*>(k), std::move(a), b); }); return; }
    }
    switch (m) {
#define X(m, d) case i_##m: implement(s, p, m##_msg, bid, prio); break;
    MSGS(X)
#undef X
    }
}

enum How { plain, t_and, t_or, t_sum, t_mean, io_and, io_or, io_sum, io_mean, io_stop, n_hows };
const char* const how_names[] = {"", " by boolean_and", " by boolean_or", " by sum", " by mean", " into a boolean_and", " into a boolean_or", " into a sum", " into a mean", " into one which stops"};
struct Stop { // stops after some results
    size_t num = 0; int sets = 0; size_t left; std::vector<double> r; bool after = false, early = false;
    void set_num_results(size_t n) { num = n; ++sets; if (!r.empty()) early = true; }
    template <typename T> bool add_result(const T& t) { if (!left) after = true; r.push_back(num_of(t)); return left && --left; }
    static double num_of(bool v) { return v; }
    static double num_of(Truth v) { return v.v; }
    template <typename T> static double num_of(const T& v) { return double(v); }
};

struct Ent { int mixin, bid, prio, pos; };
struct Missing {};
struct Model {
    std::vector<Ent> table[NM];
    const void* obj; const void* self[NK];
    std::vector<uint64_t> args;
    std::pair<size_t, size_t> next(int m, int i) const {
        auto& t = table[m]; size_t k = 0; while (k < t.size() && t[k].mixin != i) ++k;
        size_t b = k; while (b < t.size() && t[b].bid == t[k].bid) ++b;
        size_t e = b; while (e < t.size() && t[e].bid == t[b].bid) ++e;
        return {b, e};
    }
    int enter(int m, int i) {
        auto n = next(m, i); bool has = n.first < n.second;
        st->want.push_back({m, i, self[i], obj, has, args});
        auto& a = st->plan[i][m];
        if (a.throws) throw Boom{i * NM + m};
        if (!a.guarded || has) for (int k = a.next; k; --k) {
            if (!has) throw Missing{};
            if (m == i_c19_u3 && k > 1) continue;
            if (multicast[m]) for (size_t q = n.second - 1; q != n.first; --q) enter(m, table[m][q].mixin);
            int r = enter(m, table[m][n.first].mixin);
            st->want_next.push_back(out(m, r));
        }
        return a.r;
    }
    static double out(int m, int r) { // as the message gives it
        switch (m) {
        case i_c19_u2: case i_c19_m4: case i_c19_dv: return 0;
        case i_c19_m0: return r & 1;
        case i_c19_u4: case i_c19_m2: case i_c19_do: return r * 0.5;
        default: return r;
        }
    }
    int dflt(int m) {
        if (!has_default[m]) throw Missing{};
        st->want.push_back({m, -1, nullptr, obj, false, args});
        if (st->plan[NK][m].throws) throw Boom{NK * NM + m};
        return st->plan[NK][m].r;
    }
    // results in call order, as long as go says so
    template <typename F> void each(int m, F go) {
        auto& t = table[m];
        if (t.empty()) { go(dflt(m)); return; }
        size_t e = 0; while (e < t.size() && t[e].bid == t[0].bid) ++e;
        if (!multicast[m]) e = 1;
        while (e--) if (!go(enter(m, t[e].mixin))) return;
    }
};
std::string show_ev(const Event& e) {
    std::ostringstream o;
    o << "(" << names[e.msg] << " in " << (e.mixin < 0 ? std::string("default") : "K" + std::to_string(e.mixin)) << " self " << e.self << " object " << e.obj << (e.has ? " next" : "") << " args";
    for (auto a : e.args) o << " " << int64_t(a);
    o << ")"; return o.str();
}

template <typename F> struct Guard { F f; ~Guard() { f(); } };
template <typename F> Guard<F> guard(F f) { return {std::move(f)}; }

void run(vp::Src& s) {
    auto& d = v1::domain::instance();
    State state; st = &state;
    util::mixin_info_data data[NK];
    auto g = guard([&] {
        d.garbage_collect_types();
        for (auto& x : data) if (x.info.id != invalid_mixin_id) d.unregister_mixin(x.info);
        for (auto f : infos) if (f->id != invalid_feature_id) d.unregister_feature(const_cast<feature_info&>(*f));
    });
    while (s.chance(1, 3)) { auto& f = const_cast<feature_info&>(*infos[s.index(NM)]); if (f.id == invalid_feature_id) d.register_feature(f); }
    std::vector<Ent> impl[NM];
    // few messages per case, so that they have many implementers
    uint32_t focus = 0; for (int n = int(s.range(1, 5)); n--; ) focus |= 1u << s.index(NM);
    for (int m = 0; m < NM; ++m) { auto& a = state.plan[NK][m]; a.r = int(s.range(-3, 4)); a.throws = s.chance(1, 20); }
    const bool truthy = s.flip(); // mostly true or mostly false
    auto mk = [&](auto kk) {
        using KK = decltype(kk); constexpr int i = KK::index;
        v1::feature_parser<KK> p(data[i], dnmx_make_sv_lit("x"));
        cur[i] = &data[i].info;
        static const char* const nn[] = {"K0", "K1", "K2", "K3", "K4", "K5"};
        auto nm = s.chance(1, 4) ? std::string_view("K0\0z", 4 - size_t(s.draw(1))) : std::string_view(nn[s.index(NK)]);
        bool named = s.flip();
        if (named) { // names are unique
            for (int j = 0; j < i; ++j) if (data[j].info.name.to_std() == nm) named = false;
            if (named) p & v1::mixin_name(nm);
        }
        uintptr_t ud = 0;
        if (s.flip()) { ud = s.raw(); p & v1::user_data(ud); }
        bool dep = false;
        if (s.chance(1, 4)) { p & v1::dependency_mixin() & v1::dependency_mixin(false); }
        std::vector<std::tuple<int, int, int>> feats;
        for (int q = 0, rot = int(s.draw(NM)); q < NM; ++q) {
            int m = (q + rot) % NM;
            if (!(focus >> m & 1) || s.chance(1, 5)) continue;
            static const int bids[] = {0, 0, 0, 1, -1, 2, INT32_MAX, INT32_MIN};
            int bid = bids[s.index(s.flip() ? 3 : 8)], prio = s.chance(1, 3) ? bids[s.index(8)] : 0;
            if (!multicast[m] && impl[m].size()) for (bool again = true; again; ) { again = false; for (auto& e : impl[m]) if (e.bid == bid && e.prio == prio) { prio = prio == INT32_MAX ? INT32_MIN : prio + 1; again = true; } }
            implement_any(s, p, m, bid, prio);
            feats.push_back({m, bid, prio});
            impl[m].push_back({i, bid, prio, 0});
            auto& a = state.plan[i][m];
            a.r = int(s.range(-3, 4)); if (s.chance(2, 3)) a.r = truthy ? a.r | 1 : a.r & ~1;
            if (s.chance(1, 16)) a.throws = true;
            a.next = int(s.weighted({6, 3, 1})); a.guarded = s.chance(3, 4);
            VLOG("K" << i << " implements " << names[m] << " bid " << bid << " priority " << prio << " result " << a.r << (a.throws ? " throws" : "") << (a.next ? " calls the next bidder" : ""));
        }
        auto& info = data[i].info;
        if (named) VCHECK(info.name.to_std() == nm, "name by mixin_name");
        VEQ(info.user_data, ud, "user data"); VEQ(info.dependency, dep, "dependency"); VEQ(info.force_external, true, "v1 mixins are external");
        VEQ(size_t(info.num_features), feats.size(), "features of the mixin");
        for (size_t k = 0; k < feats.size(); ++k) { auto& f = info.features[k]; VCHECK(f.info == infos[std::get<0>(feats[k])], "feature " << k); VEQ(f.bid, std::get<1>(feats[k]), "bid of " << names[std::get<0>(feats[k])]); VEQ(f.priority, std::get<2>(feats[k]), "priority of " << names[std::get<0>(feats[k])]); VCHECK(f.payload, "payload"); }
    };
    mk(K<0>()); mk(K<1>()); mk(K<2>()); mk(K<3>()); mk(K<4>()); mk(K<5>());
    for (int m = 0; m < NM; ++m) { // and as they are
        VEQ(infos[m]->allow_clashes, multicast[m], "clashes of " << names[m]);
        VEQ(infos[m]->default_payload != nullptr, has_default[m], "default implementation of " << names[m]);
    }
    int order[NK] = {0, 1, 2, 3, 4, 5};
    for (int i = NK - 1; i > 0; --i) std::swap(order[i], order[s.index(size_t(i) + 1)]);
    for (int i : order) d.register_mixin(data[i].info);
    std::vector<std::unique_ptr<v1::object>> obs;
    for (int i = 0; i < 2; ++i) obs.push_back(std::make_unique<v1::object>());
    auto mut = [&](v1::object& o) {
        auto m = v1::mutate(o);
        auto one = [&](auto kk) { using KK = decltype(kk); if (s.chance(1, 3)) { if (o.template has<KK>()) m.template remove<KK>(); else m.template add<KK>(); } };
        one(K<0>()); one(K<1>()); one(K<2>()); one(K<3>()); one(K<4>()); one(K<5>());
    };
    for (auto& o : obs) mut(*o);
    while (s.more(8)) {
        vp::Src::Op op(s);
        auto& o = *obs[s.index(obs.size())];
        const auto& co = o;
        if (s.chance(1, 4)) { VLOG("mutate"); mut(o); continue; }
        Model md; md.obj = static_cast<dynamix::object*>(&o);
        memset(md.self, 0, sizeof md.self);
        auto mixins = o.get_type().mixins;
        for (size_t pos = 0; pos < mixins.size(); ++pos) for (int i = 0; i < NK; ++i) if (mixins[pos] == cur[i]) { md.self[i] = o.get_at(mixin_index_t(pos)); for (int m = 0; m < NM; ++m) for (auto e : impl[m]) if (e.mixin == i) { e.pos = int(pos); md.table[m].push_back(e); } }
        for (auto& t : md.table) std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.pos > b.pos; });
        int m = int(s.index(NM));
        for (int tries = 0; tries < 6 && md.table[m].size() < 2; ++tries) m = int(s.index(NM));
        // implements
        switch (m) {
#define X(mm, d) case i_##mm: if (infos[m]->id != invalid_feature_id) VEQ(o.implements(mm##_msg), has_default[m] || !md.table[m].empty(), "implements " << names[m]); break;
        MSGS(X)
#undef X
        }
        bool comb = multicast[m] && m != i_c19_m4, tr = m == i_c19_m0 || m == i_c19_m5;
        int how = comb ? int(s.index(n_hows)) : plain;
        if (tr && (how == t_sum || how == t_mean || how == io_sum || how == io_mean)) how = io_stop;
        int v = int(s.range(-3, 100)), w = int(s.range(0, 9)); double dv = double(s.range(-9, 9)) / 4; std::string str(s.draw(40), 's'); char ch = char('a' + w);
        Log log; Arg a1(v), a2(w); 
        auto& ar = md.args;
        switch (m) {
        case i_c19_u1: case i_c19_m1: case i_c19_du: dig<Arg>(ar, a1); break;
        case i_c19_u2: case i_c19_m2: dig<const Arg&>(ar, a1); dig<Log&>(ar, log); break;
        case i_c19_u3: dig<Arg&&>(ar, a1); dig<Arg*>(ar, &a2); ar.push_back(uint64_t(int64_t(v))); break;
        case i_c19_u4: dig<char>(ar, ch); dig<const std::string&>(ar, str); dig<Arg>(ar, a1); dig<Log&>(ar, log); break;
        case i_c19_u5: dig<char>(ar, ch); dig<double>(ar, dv); dig<const std::string&>(ar, str); dig<Arg>(ar, a1); dig<Arg>(ar, a2); break;
        case i_c19_m3: dig<Arg>(ar, a1); dig<Arg>(ar, a2); dig<int>(ar, w); break;
        case i_c19_m4: dig<Log&>(ar, log); dig<double>(ar, dv); dig<const std::string&>(ar, str); dig<Arg>(ar, a1); break;
        case i_c19_m5: dig<Arg>(ar, a1); dig<Arg&>(ar, a2); dig<std::string>(ar, str); dig<char>(ar, ch); dig<Arg>(ar, a2); break;
        case i_c19_uo: dig<int>(ar, v); break;
        case i_c19_mo: dig<int>(ar, v); dig<std::string>(ar, str); break;
        case i_c19_xo: dig<const Arg&>(ar, a1); break;
        case i_c19_dm: dig<Arg>(ar, a1); dig<const Arg&>(ar, a2); break;
        case i_c19_do: dig<Arg>(ar, a1); dig<Arg>(ar, a2); dig<Log&>(ar, log); break;
        }
        Stop stop; stop.left = size_t(s.range(1, 4));
        const size_t left = stop.left;
        size_t top = 0; { auto& t = md.table[m]; while (top < t.size() && t[top].bid == t[0].bid) ++top; }
        VLOG(names[m] << how_names[how] << " with " << md.table[m].size() << " implementers, " << top << " of the top bid");
        // the model
        state.got.clear(); state.want.clear(); state.got_next.clear(); state.want_next.clear();
        int want = oc_ok, wboom = -1; double wres = 0; std::vector<double> results;
        try {
            double sum = 0; long long isum = 0; bool b = how == t_and || how == io_and;
            md.each(m, [&](int r) {
                double x = Model::out(m, r); results.push_back(x); sum += x; isum += r;
                bool truth = m == i_c19_m5 ? (r & 1) : x != 0;
                switch (how) {
                case t_and: case io_and: b = b && truth; return b;
                case t_or: case io_or: b = b || truth; return !b;
                case io_stop: return results.size() < left;
                default: return true;
                }
            });
            switch (how) {
            case plain: wres = results.back(); break;
            case t_and: case io_and: case t_or: case io_or: wres = b; break;
            case t_sum: case io_sum: wres = sum; break;
            case t_mean: case io_mean: wres = m == i_c19_m2 || m == i_c19_do ? sum / double(results.size()) : double(isum / (long long)(results.size())); break;
            }
        }
        catch (Missing&) { want = oc_feature; }
        catch (Boom& b) { want = oc_other; wboom = b.at; }
        // the call
        double gres = 0; int gboom = -1;
        const bool reuse = s.flip();
        namespace cs = v1::combinators;
        int oc = outcome([&] {
            try {
#define IO(C, o, name, ...) { C c; if (reuse) { c.set_num_results(1); c.add_result({}); c.reset(); } name(o, ##__VA_ARGS__, c); gres = num(c.result()); break; }
#define LOGIC(o, R, name, ...) \
    case plain: gres = num(name(o, ##__VA_ARGS__)); break; \
    case t_and: gres = num(name<cs::boolean_and>(o, ##__VA_ARGS__)); break; \
    case t_or: gres = num(name<cs::boolean_or>(o, ##__VA_ARGS__)); break; \
    case io_and: IO(cs::boolean_and<R>, o, name, ##__VA_ARGS__) \
    case io_or: IO(cs::boolean_or<R>, o, name, ##__VA_ARGS__) \
    case io_stop: name(o, ##__VA_ARGS__, stop); break;
#define MATH(o, R, name, ...) switch (how) { LOGIC(o, R, name, ##__VA_ARGS__) \
    case t_sum: gres = num(name<cs::sum>(o, ##__VA_ARGS__)); break; \
    case t_mean: gres = num(name<cs::mean>(o, ##__VA_ARGS__)); break; \
    case io_sum: IO(cs::sum<R>, o, name, ##__VA_ARGS__) \
    case io_mean: IO(cs::mean<R>, o, name, ##__VA_ARGS__) }
                switch (m) {
                case i_c19_u0: gres = c19_u0(o); break;
                case i_c19_u1: gres = s.flip() ? c19_u1(co, a1) : c19_u1(o, std::move(a1)); break;
                case i_c19_u2: c19_u2(o, a1, log); break;
                case i_c19_u3: gres = c19_u3(o, std::move(a1), &a2, std::make_unique<int>(v)); break;
                case i_c19_u4: gres = c19_u4(co, ch, str, a1, log); break;
                case i_c19_u5: gres = c19_u5(co, ch, dv, str, a1, a2); break;
                case i_c19_m0: switch (how) { LOGIC(o, bool, c19_m0) } break;
                case i_c19_m1: MATH(co, int, c19_m1, a1) break;
                case i_c19_m2: MATH(o, double, c19_m2, a1, log) break;
                case i_c19_m3: MATH(co, Len, c19_m3, a1, a2, w) break;
                case i_c19_m4: c19_m4(o, log, dv, str, a1); break;
                case i_c19_m5: switch (how) { LOGIC(co, Truth, c19_m5, a1, a2, str, ch, a2) } break;
                case i_c19_uo: gres = c19_u0(o, v); break;
                case i_c19_mo: MATH(co, int, c19_m1, v, str) break;
                case i_c19_du: gres = c19_du(o, a1); break;
                case i_c19_dm: MATH(co, int, c19_dm, a1, a2) break;
                case i_c19_dv: c19_dv(co); break;
                case i_c19_do: MATH(o, double, c19_m1, a1, a2, log) break;
                case i_c19_xo: gres = c19_u0(co, a1); break;
                }
            }
            catch (Boom& b) { gboom = b.at; throw; }
        });
        VOC(oc, want, names[m]);
        VEQ(gboom, wboom, "where it throws");
        for (size_t k = 0; k < std::max(state.got.size(), state.want.size()); ++k) {
            if (k >= state.got.size()) VFAIL(names[m] << ": call " << k << " is missing: " << show_ev(state.want[k]));
            if (k >= state.want.size()) VFAIL(names[m] << ": call " << k << " is not expected: " << show_ev(state.got[k]));
            VCHECK(state.got[k] == state.want[k], names[m] << ": call " << k << " is " << show_ev(state.got[k]) << ", expected " << show_ev(state.want[k]));
        }
        VCHECK(state.got_next == state.want_next, names[m] << ": results of the next bidders");
        if (how == io_stop && want == oc_ok) {
            VCHECK(stop.sets == 1 && !stop.early, "the number of results is told once and first"); VEQ(stop.num, top ? top : 1, "number of results told");
            VCHECK(stop.r == results, "results of a combinator"); VCHECK(!stop.after, "a result after the stop");
        }
        if (want == oc_ok && how != io_stop && m != i_c19_u2 && m != i_c19_m4 && m != i_c19_dv) VEQ(gres, wres, names[m] << how_names[how] << ": result");
        if (state.want.size() > 1) s.interesting();
        if (how != plain && how != io_stop && results.size() < top) s.label("a combinator stops early");
        s.label(want == oc_ok ? "message served" : want == oc_feature ? "message lacking" : "a callee throws");
    }
    obs.clear();
}

// the combinators themselves
template <typename T> void fold(vp::Src& s, std::vector<T> v, bool integral) {
    namespace cs = v1::combinators;
    size_t n = v.size();
    cs::boolean_and<T> a; cs::boolean_or<T> o; cs::sum<T> su; cs::mean<T> me;
    for (int round = 0; round < 2; ++round) {
        if (round) { a.reset(); o.reset(); su.reset(); me.reset(); std::reverse(v.begin(), v.end()); }
        VEQ(a.result(), true, "and of nothing"); VEQ(o.result(), false, "or of nothing"); VEQ(su.result(), T(0), "sum of nothing");
        a.set_num_results(n); o.set_num_results(n); su.set_num_results(n); me.set_num_results(n);
        bool wa = true, wo = false; T ws = T(0);
        for (auto& x : v) {
            bool t = x != T(0);
            wa = wa && t; wo = wo || t; ws = T(ws + x);
            VEQ(a.add_result(x), wa, "and goes on"); VEQ(o.add_result(x), !wo, "or goes on"); VEQ(su.add_result(x), true, "sum goes on"); VEQ(me.add_result(x), true, "mean goes on");
            VEQ(a.result(), wa, "and"); VEQ(o.result(), wo, "or"); VEQ(su.result(), ws, "sum");
        }
        if (n) VEQ(me.result(), T(ws / T(n)), "mean");
    }
    (void)integral; (void)s;
}
void folds(vp::Src& s) {
    std::vector<long long> v; for (int n = int(s.draw(7)); n--; ) v.push_back(s.flip() ? 0 : s.range(-1000, 1000));
    VLOG("fold " << v.size() << " results");
    if (v.size() > 1) s.interesting();
    switch (s.draw(4)) {
    case 0: fold<int>(s, {v.begin(), v.end()}, true); break;
    case 1: fold<long long>(s, v, true); break;
    case 2: { std::vector<double> d; for (auto x : v) d.push_back(double(x) / 8); fold<double>(s, d, false); break; }
    case 3: { std::vector<float> d; for (auto x : v) d.push_back(float(x) / 4); fold<float>(s, d, false); break; }
    default: { std::vector<unsigned> d; for (auto x : v) d.push_back(unsigned(std::abs(x))); fold<unsigned>(s, d, true); break; }
    }
}
vp::Reg r1("C19", vp::Part{"v1 messages", "19 messages made by the v1 macros (uni- and multicast, const, exported, overloaded, 0 to 5 arguments by value, reference, rvalue and pointer, default implementations) implemented by random subsets of 6 v1 mixins with bids and priorities given in each of the v1 ways; callees call their next bidders, use up what they get by value or throw; multicasts also by each combinator, by template and in-out, and by one which stops: callees in order, with object, instance and arguments, results, told numbers and exceptions are compared with a model; non-trivial: a call reaches more than one callee", run, 120000, 5000000});
vp::Reg r2("C19", vp::Part{"combinators", "the four combinators fed with random results of five types, twice with a reset between; non-trivial: two or more results", folds, 50000, 2000000});
}
