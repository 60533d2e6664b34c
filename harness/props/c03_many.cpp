// C03: messages with many implementers: hundreds of mixins of one class.
#include "common.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/declare_mixin.hpp>

using dynamix::object;
DYNAMIX_DECLARE_SIMPLE_MSG(w_uni, int(object&, int, std::string));
DYNAMIX_DECLARE_MSG(w_multi_msg, w_multi, int, (object&, int, std::string));
DYNAMIX_DECLARE_SIMPLE_MSG(w_void, void(const object&, const std::vector<int>&));

#include <dynamix/msg/func_traits.hpp>
DYNAMIX_MAKE_FUNC_TRAITS(w_multi);
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/dm_this.hpp>

namespace c03many {
using namespace pt;
enum { stop, next_impl, next_set, next_top };
struct Mx;
struct Ev { int msg, id; const void* self; int a; std::string s; bool operator==(const Ev& o) const { return msg == o.msg && id == o.id && self == o.self && a == o.a && s == o.s; } };
std::vector<Ev> got;
struct K { Mx* m; };
struct Mx { int id; int act[3]; util::mixin_info_data data; std::string name; };
Mx* cur; // whose info the class has
const mixin_info& _dynamix_get_mixin_info(const K*) { return cur->data.info; }
}
#include <dynamix/define_mixin.hpp>
#include <dynamix/msg/define_msg.hpp>
DYNAMIX_DEFINE_SIMPLE_MSG(w_uni, unicast);
DYNAMIX_DEFINE_MSG(w_multi_msg, multicast, w_multi, int, (object&, int, std::string));
DYNAMIX_DEFINE_SIMPLE_MSG(w_void, multicast);

namespace c03many {
template <typename Msg> int serve(K* k, int msg, int a, std::string s) {
    got.push_back({msg, k->m->id, k, a, s});
    unsigned r = unsigned(k->m->id * 7 + msg);
    int act = k->m->act[msg];
    if (act == stop) return int(r);
    auto mine = [&] { cur = k->m; };
    mine();
    if (act == next_impl) { if (!has_next_impl_msg<Msg>(k)) return int(r); mine(); return int(r + 3u * unsigned(call_next_impl_msg<Msg>(k, a + 1, std::move(s)))); }
    if (!has_next_bidder_set<Msg>(k)) return int(r);
    mine();
    if (act == next_set) return int(r + 5u * unsigned(call_next_bidder_set<Msg>(k, a + 2, std::move(s))));
    return int(r + 9u * unsigned(call_next_bidder_top<Msg>(k, a + 3, std::move(s))));
}
int f_uni(K* k, int a, std::string s) { return serve<w_uni>(k, 0, a, std::move(s)); }
int f_multi(K* k, int a, std::string s) { return serve<w_multi_msg>(k, 1, a, std::move(s)); }
void f_void(const K* k, const std::vector<int>& v) { got.push_back({2, k->m->id, k, v.empty() ? -1 : v[0], ""}); }

struct Imp { Mx* m; int bid, prio; size_t pos; };
struct Model {
    std::vector<Imp> t[3]; std::vector<Ev> want; object* o;
    struct too_many {};
    void ev(int msg, const Imp& i, int a, const std::string& s) { if (want.size() > 3000) throw too_many{}; want.push_back({msg, i.m->id, o->get(i.m->data.info), a, s}); }
    unsigned one(int msg, size_t i, int a, const std::string& s) {
        auto& v = t[msg]; ev(msg, v[i], a, s);
        unsigned r = unsigned(v[i].m->id * 7 + msg);
        size_t b = i, e;
        switch (v[i].m->act[msg]) {
        case next_impl: return i + 1 < v.size() ? r + 3u * one(msg, i + 1, a + 1, s) : r;
        case next_set: case next_top:
            while (b < v.size() && v[b].bid == v[i].bid) ++b;
            if (b == v.size()) return r;
            for (e = b; e < v.size() && v[e].bid == v[b].bid; ) ++e;
            return v[i].m->act[msg] == next_set ? r + 5u * set(msg, b, e, a + 2, s) : r + 9u * one(msg, b, a + 3, s);
        default: return r;
        }
    }
    unsigned set(int msg, size_t b, size_t e, int a, const std::string& s) { while (--e > b) one(msg, e, a, s); return one(msg, b, a, s); }
};

void many(vp::Src& s) {
    size_t n = size_t(s.range(1, s.oneof({12, 40, 120, 400})));
    size_t bids = size_t(s.range(1, s.oneof({2, 5, 30}))), lazy = s.index(4);
    uint64_t x = s.raw(); auto r = [&](size_t o) { x = vp::mix64(x + 0x9e3779b97f4a7c15ull); return size_t(x % o); };
    domain d("many", {}, 0);
    std::vector<std::unique_ptr<Mx>> mix; std::vector<Imp> all[3];
    for (size_t i = 0; i < n; ++i) {
        auto m = std::make_unique<Mx>(); m->id = int(i); m->name = "m" + std::to_string(i);
        // chains of calls into next sets grow quickly: most stop
        for (int k = 0; k < 3; ++k) m->act[k] = r(lazy ? 30 : 2) ? stop : int(r(k == 0 ? 4 : 2));
        if (!r(25)) m->act[1] = next_set;
        if (bids == 1) m->act[1] = m->act[1] == next_impl && r(10) ? stop : m->act[1];
        util::mixin_info_data_builder<K> b(m->data, m->name);
        auto give = [&](int k, auto f) { if (!r(7)) return; int bid = int(r(bids)) - 1, prio = r(2) ? 0 : int(r(5)) - 2; f(util::builder_literals::feature_bid_priority(bid, prio)); all[k].push_back({m.get(), bid, prio, 0}); };
        give(0, [&](auto p) { b.implements_by<w_uni>(f_uni, p); });
        give(1, [&](auto p) { b.implements_by<w_multi_msg>(f_multi, p); });
        give(2, [&](auto p) { b.implements_by<w_void>(f_void, p); });
        mix.push_back(std::move(m));
    }
    std::vector<const feature_info*> fs{&w_uni::get_info_safe(), &w_multi_msg::get_info_safe(), &w_void::get_info_safe()};
    for (auto f : fs) const_cast<feature_info*>(f)->id = invalid_feature_id; // what a failed case left
    for (auto& m : mix) d.register_mixin(m->data.info);
    VLOG(n << " mixins, " << bids << " bids");
    for (int k = 0; k < 3; ++k) {
        vp::Src::Op op(s);
        std::vector<Mx*> l; for (auto& m : mix) if (k == 0 || r(3)) l.push_back(m.get());
        for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r(i)]);
        if (l.empty()) continue;
        std::vector<const mixin_info*> q; for (auto m : l) q.push_back(&m->data.info);
        object o(d.get_type(q));
        for (size_t i = 0; i < l.size(); ++i) static_cast<K*>(o.get_at(mixin_index_t(i)))->m = l[i];
        Model md; md.o = &o;
        for (int m = 0; m < 3; ++m) {
            for (auto e : all[m]) { auto f = std::find(l.begin(), l.end(), e.m); if (f == l.end()) continue; e.pos = size_t(f - l.begin()); md.t[m].push_back(e); }
            std::sort(md.t[m].begin(), md.t[m].end(), [](auto& a, auto& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.pos > b.pos; });
        }
        for (int m = 0; m < 3; ++m) {
            auto& t = md.t[m]; md.want.clear(); got.clear();
            size_t e = 0; while (e < t.size() && t[e].bid == t[0].bid) ++e;
            if (e > 16) s.interesting();
            std::string str(r(40), 's'); int a = int(r(100)); unsigned want = 0, res = 0;
            // chains of calls grow quickly: as many callees as it takes stop
            for (size_t most = 200; m < 2 && !t.empty(); most /= 2) {
                size_t c = 0; for (auto& i : t) if (i.m->act[m] != stop && ++c > most) i.m->act[m] = stop;
                md.want.clear();
                try { want = m ? md.set(1, 0, e, a, str) : md.one(0, 0, a, str); break; } catch (Model::too_many&) {}
            }
            if (m == 2) while (e--) md.ev(2, t[e], a, "");
            int oc = outcome([&] {
                if (m == 0) res = unsigned(w_uni::call(o, a, str));
                else if (m == 1) res = unsigned(r(2) ? w_multi(o, a, str) : w_multi_msg::call(o, a, str));
                else w_void::call(o, {a});
            });
            VOC(oc, t.empty() ? oc_feature : oc_ok, "message " << m << " with " << t.size() << " implementers");
            VLOG("message " << m << " with " << t.size() << " implementers: " << got.size() << " calls");
            for (size_t i = 0; i < std::max(got.size(), md.want.size()); ++i) {
                VCHECK(i < got.size(), "message " << m << ": only " << i << " of " << md.want.size() << " calls");
                VCHECK(i < md.want.size(), "message " << m << ": call " << i << " of mixin " << got[i].id << " is not expected");
                VCHECK(got[i] == md.want[i], "message " << m << ": call " << i << " is of mixin " << got[i].id << " with " << got[i].a << ", expected mixin " << md.want[i].id << " with " << md.want[i].a);
            }
            if (m < 2 && !t.empty()) VEQ(res, want, "result of message " << m);
        }
    }
    for (auto& m : mix) d.unregister_mixin(m->data.info);
    for (auto f : fs) if (f->id != invalid_feature_id) d.unregister_feature(const_cast<feature_info&>(*f));
}
vp::Reg reg("C03", vp::Part{"many implementers", "1 to 400 mixins of one class implement a unicast and two multicasts with 1 to 30 bids, some callees call the next implementer, bidder or set: the sequence of callees with instances and arguments and the result are compared with a model; non-trivial: more than 16 top bidders", many, 6000, 400000});
}
