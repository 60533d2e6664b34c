D = 'code/dynamix/domain.cpp'
OM = 'code/dynamix/object_mutation.cpp'
OB = 'code/dynamix/object.cpp'
TM = 'code/dynamix/type_mutation.cpp'
TY = 'code/dynamix/type.cpp'
MC = 'code/dynamix/mutate-c.cpp'
CALLER = 'code/dynamix/msg/msg_caller.hpp'
NEXT = 'code/dynamix/msg/next_impl.hpp'
SV = 'code/dnmx/bits/sv.h'
V1R = 'v1compat/code/dynamix/v1compat/mutation_rules.cpp'
V1D = 'v1compat/code/dynamix/v1compat/define_mixin.hpp'
V1N = 'v1compat/code/dynamix/v1compat/next_bidder.hpp'
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

# ---- C03
seed('C03-next-set-forwards', 'C03', [(NEXT, """        traits::caller::call(*i, *obj, args...); // args are copied! return value is ignored
""", """        traits::caller::call(*i, *obj, std::forward<Args>(args)...); // return value is ignored
""")],
 'a call of the next bidder set with a movable argument taken by value, where that set has several mixins',
 'the argument is moved into one mixin of the next bidder set; the others get a moved-out value',
 """
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/msg/func_traits.hpp>
using Str = std::string;
DYNAMIX_DECLARE_MSG(say_msg, say, void, (dx::object&, Str));
DYNAMIX_MAKE_FUNC_TRAITS(say);
std::vector<Str> got;
const dx::mixin_info* infos[3];
template <int I> struct K { void say(Str s); };
template <int I> const dx::mixin_info& _dynamix_get_mixin_info(const K<I>*) { return *infos[I]; }
template <int I> void K<I>::say(Str s) {
    got.push_back(s);
    if (I == 0) dx::call_next_bidder_set<say_msg>(this, std::move(s));
}
#include <dynamix/msg/define_msg.hpp>
DYNAMIX_DEFINE_MSG(say_msg, multicast, say, void, (dx::object&, Str));
int main() {
    dx::domain d("d");
    mixin<K<0>> a("a"); mixin<K<1>> b("b"); mixin<K<2>> c("c");
    a.b.implements<say_msg>(builder_perks{5, 0}); b.b.implements<say_msg>(); c.b.implements<say_msg>();
    a.register_in(d); b.register_in(d); c.register_in(d);
    infos[0] = &a; infos[1] = &b; infos[2] = &c;
    dx::object o(get(d, {&a, &b, &c}));
    say(o, "a text longer than the short ones");
    CHECK(got == std::vector<Str>(3, "a text longer than the short ones"));
}
""")

seed('C03-next-set-any-lower', 'C03', [(TY, """    while (end != fe.end && end->data->bid == f->data->bid) ++end; // find the end of the next bidder set
""", """    while (end != fe.end && end->data->bid <= f->data->bid) ++end; // find the end of the next bidder set
""")],
 'three levels of bids for one message, and a mixin of the top one which calls the next bidder set',
 'the next bidder set takes in all lower bidders, not only those of the next bid',
 """
int main() {
    dx::domain d("d");
    dx::common_feature_info f(dnmx_make_sv_lit("f"), true);
    int p;
    mixin<> a("a"), b("b"), c("c");
    a.b.implements_by(f, p, builder_perks{2, 0}); b.b.implements_by(f, p, builder_perks{1, 0}); c.b.implements_by(f, p, builder_perks{0, 0});
    a.register_in(d); b.register_in(d); c.register_in(d);
    auto& t = get(d, {&a, &b, &c});
    CHECK(t.find_next_bidder_set(f, a).size() == 1);
    CHECK(t.find_next_bidder_set(f, b).size() == 1);
    CHECK(t.find_next_bidder_set(f, c).size() == 0);
}
""")

seed('C03-multicast-order-begin', 'C03', [(CALLER, """            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
            // return first (top) result
            return call(*fe.begin, obj, std::forward<Args>(args)...);
""", """            for (auto i = fe.begin + 1; i <= fe.top_bid_back; ++i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
            // return first (top) result
            return call(*fe.begin, obj, std::forward<Args>(args)...);
""")],
 'a multicast message with three or more top bidders',
 'the middle callees are called from the front of the table rather than from the back: not in the order of mixins and priorities',
 """
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
DYNAMIX_DECLARE_MSG(say_msg, say, void, (dx::object&));
DYNAMIX_MAKE_FUNC_TRAITS(say);
std::vector<int> got;
template <int I> struct K { void say() { got.push_back(I); } };
#include <dynamix/msg/define_msg.hpp>
DYNAMIX_DEFINE_MSG(say_msg, multicast, say, void, (dx::object&));
int main() {
    dx::domain d("d");
    mixin<K<0>> a("a"); mixin<K<1>> b("b"); mixin<K<2>> c("c");
    a.b.implements<say_msg>(); b.b.implements<say_msg>(); c.b.implements<say_msg>();
    a.register_in(d); b.register_in(d); c.register_in(d);
    dx::object o(get(d, {&a, &b, &c}));
    say(o);
    CHECK(got == std::vector<int>{0, 1, 2});
}
""")

# ---- C14
seed('C14-override-by-name-too', 'C14', [(MC, """                if (ov.mixin) return ov.mixin == m;
                return ov.mixin_name == m->name;
            });
            if (!o) continue; // not overridden

            auto wrap_init = [&](init_new_args args) {
                if (o->init_new) {
""", """                if (ov.mixin == m) return true;
                return ov.mixin_name == m->name;
            });
            if (!o) continue; // not overridden

            auto wrap_init = [&](init_new_args args) {
                if (o->init_new) {
""")],
 'an override of dnmx_mutate_to which names one mixin by its info and carries the name of another',
 'the name of an override is looked at although the override has a mixin: the other mixin is overridden as well',
 """
int hits;
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    auto& t = get(d, {&a, &b});
    dx::object o(d);
    dnmx_mutate_to_override ov = {};
    ov.mixin = &a.info; ov.mixin_name = dnmx_make_sv_str("b");
    ov.init_new = [](dnmx_mutate_func_args) -> dnmx_error_return_t { ++hits; return 0; };
    CHECK(dnmx_mutate_to(o.to_c_hanlde(), &t, &ov, 1) == 0);
    CHECK(hits == 1);
}
""")

seed('C14-update-source-index', 'C14', [(MC, "&args.source_type, args.target_index, args.source_index, o->user_data});", "&args.source_type, args.target_index, args.target_index, o->user_data});")],
 'dnmx_mutate_to with an update of a common mixin which has another index in the new type',
 'update functions of C overrides are given the index in the new type as the one in the old type',
 """
int src = -1, tgt = -1;
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    dx::object o(get(d, {&a, &b}));
    auto& t = get(d, {&b});
    dnmx_mutate_to_override ov = {};
    ov.mixin = &b.info;
    ov.update_common = [](dnmx_mutate_func_args args) -> dnmx_error_return_t { src = args.source_index; tgt = args.target_index; return 0; };
    CHECK(dnmx_mutate_to(o.to_c_hanlde(), &t, &ov, 1) == 0);
    CHECK(tgt == 0); CHECK(src == 1);
}
""")

seed('C14-first-add-op', 'C14', [(MC, """                if (!op.init_override) return false; // ... which have an init override
                // ... for the mixin in question
                if (op.mixin) return op.mixin == m;
                return op.mixin_name == m->name;
            });
            if (!o) continue; // not overridden
""", """                // ... for the mixin in question
                if (op.mixin) return op.mixin == m;
                return op.mixin_name == m->name;
            });
            if (!o || !o->init_override) continue; // not overridden
""")],
 'dnmx_mutate which adds a mixin twice (removed in between), the second time with an init override',
 'the first add of a mixin hides the init override of a later one',
 """
int hits;
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    dx::object o(d);
    dnmx_mutate_op ops[3] = {};
    ops[0].op_type = dnmx_mutate_op_add; ops[0].mixin = &a.info;
    ops[1].op_type = dnmx_mutate_op_remove; ops[1].mixin = &a.info;
    ops[2].op_type = dnmx_mutate_op_add; ops[2].mixin = &a.info;
    ops[2].init_override = [](dnmx_mutate_func_args) -> dnmx_error_return_t { ++hits; return 0; };
    CHECK(dnmx_mutate(o.to_c_hanlde(), ops, 3) == 0);
    CHECK(hits == 1);
}
""")

# ---- C16
seed('C16-find-last-first', 'C16', [(SV, """    while (len--) {
        if (sv.begin[len] == q) return sv.begin + len;
    }
    return NULL;
""", """    while (len > 1) {
        if (sv.begin[--len] == q) return sv.begin + len;
    }
    return NULL;
""")],
 'the character is only at the very start of the string',
 'the last occurrence of a character is not found when it is the first character of the string',
 """
int main() {
    auto s = dnmx_make_sv_str("colon");
    CHECK(dnmx_sv_find_last(s, 'c') == s.begin);
    CHECK(dnmx_sv_find_last(s, 'o') == s.begin + 3);
    CHECK(!dnmx_sv_find_last(s, 'x'));
}
""")

seed('C16-cmp-overread', 'C16', [(SV, """        int cmp = memcmp(a.begin, b.begin, blen);
        return cmp == 0 ? 1 : cmp;
""", """        int cmp = memcmp(a.begin, b.begin, alen);
        return cmp == 0 ? 1 : cmp;
""")],
 'a string compared with a shorter one which is its prefix and is not followed by a null character',
 'what follows the shorter string in memory takes part in the comparison: the order is wrong, or memory outside of the string is read',
 """
int main() {
    const char text[] = "ab~";
    CHECK(dnmx_sv_cmp(dnmx_make_sv_str("abc"), dnmx_make_sv_len(text, 2)) > 0);
}
""")

# ---- C18
V1H = """
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
namespace v1 = dynamix::v1compat;
DYNAMIX_V1_DECLARE_MIXIN(a); DYNAMIX_V1_DECLARE_MIXIN(b); DYNAMIX_V1_DECLARE_MIXIN(c); DYNAMIX_V1_DECLARE_MIXIN(e);
class a {}; class b {}; class c {}; class e {};
DYNAMIX_V1_DEFINE_MIXIN(a, v1::none); DYNAMIX_V1_DEFINE_MIXIN(b, v1::none); DYNAMIX_V1_DEFINE_MIXIN(c, v1::none); DYNAMIX_V1_DEFINE_MIXIN(e, v1::none);
"""
seed('C18-oneshot-stops', 'C18', [(V1R, """    if (!mut.has(*master)) return;
    for (auto i : infos) {
        mut.add_if_lacking(*i);
    }
""", """    if (!mut.has(*master)) return;
    for (auto i : infos) {
        if (!mut.add_if_lacking(*i)) break;
    }
""")],
 'a rule with two or more dependents where an earlier one is there already',
 'dependents after one which is already there are not added',
 V1H + """
int main() {
    auto r = std::make_shared<v1::dependent_mixins_oneshot>();
    r->set_master<a>(); r->add<b>(); r->add<c>();
    dx::type_mutation m(v1::domain::instance());
    m.add<a>(); m.add<b>();
    r->apply_to(m);
    CHECK(m.mixins.size() == 3);
}
""", v1=True)

seed('C18-exclusive-pairs', 'C18', [(V1R, """        if (found) return true; // erase if another mutually exclusive was found
        found = true;
        return false; // keep the first
""", """        found = !found;
        return !found; // keep the first, erase if another mutually exclusive was found
""")],
 'three mutually exclusive mixins in one mutation',
 'of three mutually exclusive mixins two are kept',
 V1H + """
int main() {
    auto r = std::make_shared<v1::mutually_exclusive_mixins>();
    r->add<a>(); r->add<b>(); r->add<c>();
    dx::type_mutation m(v1::domain::instance());
    m.add<a>(); m.add<b>(); m.add<e>(); m.add<c>();
    r->apply_to(m);
    CHECK(m.mixins.size() == 2); CHECK(m.has<c>()); CHECK(m.has<e>());
}
""", v1=True)

seed('C18-remove-shifts-ids', 'C18', [(V1R, """    dom.remove_mutation_rule(r->info());
    return r;
""", """    dom.remove_mutation_rule(r->info());
    while (!rules.empty() && !rules.back()) rules.pop_back();
    rules.erase(std::remove(rules.begin(), rules.end(), nullptr), rules.end());
    return r;
""")],
 'a rule is removed while ones added later are still there, then one of those is removed by its id',
 'ids of the rules after a removed one become those of other rules',
 V1H + """
int main() {
    auto r0 = std::make_shared<v1::mandatory_mixin<a>>(); auto r1 = std::make_shared<v1::mandatory_mixin<b>>();
    auto i0 = v1::add_mutation_rule(r0); auto i1 = v1::add_mutation_rule(r1);
    CHECK(v1::remove_mutation_rule(i0) == r0);
    CHECK(v1::remove_mutation_rule(i1) == r1);
    CHECK(v1::domain::instance().get_type(dx::type_mutation(v1::domain::instance())).num_mixins() == 0);
}
""", v1=True)

# ---- C19
seed('C19-bid-drops-priority', 'C19', [(V1D, """Perks<Message> bid(int b, Perks<Message> perks)
{
    perks.bid = b;
    return perks;
""", """Perks<Message> bid(int b, Perks<Message> perks)
{
    return bid(b, static_cast<Message*>(nullptr));
""")],
 'a mixin which gives a message a priority and a bid, the bid outermost',
 'bid(n, priority(m, msg)) loses the priority',
 """
#include <dynamix/v1compat/core.hpp>
#include <dynamix/domain.hpp>
namespace v1 = dynamix::v1compat;
DYNAMIX_V1_MULTICAST_MESSAGE_0(void, hello);
DYNAMIX_V1_DECLARE_MIXIN(a);
class a { public: void hello() {} };
DYNAMIX_V1_DEFINE_MIXIN(a, v1::bid(3, v1::upriority(4, hello_msg)));
DYNAMIX_V1_DEFINE_MESSAGE(hello);
int main() {
    auto& i = dx::g::get_mixin_info<a>();
    auto f = i.features_span();
    CHECK(f.size() == 1); CHECK(f[0].bid == 3); CHECK(f[0].priority == 4);
}
""", v1=True)

seed('C19-num-results', 'C19', [(CALLER, "combinator.set_num_results(size_t(fe.top_bid_back - fe.begin) + 1);", "combinator.set_num_results(size_t(fe.end - fe.begin));")],
 'a combinator call of a multicast message where some mixin has a lower bid, with a combinator which uses the number of results',
 'the combinator is told of more results than it gets: the mean of the results is wrong',
 """
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/domain.hpp>
namespace v1 = dynamix::v1compat;
DYNAMIX_V1_MULTICAST_MESSAGE_0(int, num);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_0(int, num);
DYNAMIX_V1_DECLARE_MIXIN(a); DYNAMIX_V1_DECLARE_MIXIN(b);
class a { public: int num() { return 6; } }; class b { public: int num() { return 6; } };
DYNAMIX_V1_DEFINE_MIXIN(a, v1::bid(1, num_msg)); DYNAMIX_V1_DEFINE_MIXIN(b, num_msg);
DYNAMIX_V1_DEFINE_MESSAGE(num);
int main() {
    dx::type_mutation tm(v1::domain::instance());
    tm.add<a>(); tm.add<b>();
    v1::object o(v1::domain::instance().get_type(std::move(tm)));
    v1::combinators::mean<int> m;
    num<v1::combinators::mean<int>>(o, m);
    CHECK(m.result() == 6);
}
""", v1=True)

seed('C19-unicast-next-set', 'C19', [(V1N, """    if constexpr (Message::multicast) {
        return call_next_bidder_set<Message>(mixin, std::forward<Args>(args)...);
""", """    if constexpr (Message::multicast || std::is_void_v<typename msg_traits<Message>::ret_t>) {
        return call_next_bidder_set<Message>(mixin, std::forward<Args>(args)...);
""")],
 'a unicast message returning void, a next-bidder call in it, and two next bidders with equal bids and different priorities',
 'the next-bidder call of a unicast message with no result reaches all next bidders instead of the first',
 """
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <dynamix/domain.hpp>
namespace v1 = dynamix::v1compat;
DYNAMIX_V1_MESSAGE_0(void, hello);
DYNAMIX_V1_DECLARE_MIXIN(a); DYNAMIX_V1_DECLARE_MIXIN(b); DYNAMIX_V1_DECLARE_MIXIN(c);
int hits;
class a { public: void hello() { DYNAMIX_V1_CALL_NEXT_BIDDER(hello_msg); } }; class b { public: void hello() { ++hits; } }; class c { public: void hello() { ++hits; } };
DYNAMIX_V1_DEFINE_MIXIN(a, v1::bid(1, hello_msg)); DYNAMIX_V1_DEFINE_MIXIN(b, hello_msg); DYNAMIX_V1_DEFINE_MIXIN(c, v1::upriority(1, hello_msg));
DYNAMIX_V1_DEFINE_MESSAGE(hello);
int main() {
    dx::type_mutation tm(v1::domain::instance());
    tm.add<a>(); tm.add<b>(); tm.add<c>();
    v1::object o(v1::domain::instance().get_type(std::move(tm)));
    hello(o);
    CHECK(hits == 1);
}
""", v1=True)

# ---- C20
seed('C20-clear-before-remove', 'C20', [(D, """        // refs are zero, so remove rule and invalidate stored type queries
        reg->mutation_rules.erase(f);
        // we can't tell which ones the rule affects, so we have to invalidate them all
        ++reg->generation;
        reg->type_queries.clear();
""", """        // refs are zero, so remove rule and invalidate stored type queries
        // we can't tell which ones the rule affects, so we have to invalidate them all
        ++reg->generation;
        reg->type_queries.clear();
        {
            // destroying many queries takes its time: let the others in before we go on
            auto unlocked = std::move(reg);
        }
        auto again = m_type_registry.unique_lock();
        again->mutation_rules.erase(&info);
""")],
 'a type is requested by another thread between the two halves of a rule removal',
 'a query computed with the removed rule is stored after the queries were dropped and stays',
 """
#include <thread>
#include <atomic>
mixin<int>* pb;
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    pb = std::addressof(b);
    dx::mutation_rule_info rule = {dnmx_make_sv_lit("r"), [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t { dx::type_mutation::from_c_handle(h)->add_if_lacking(*pb); return 0; }, 0, 0};
    for (int i = 0; i < 4000; ++i) {
        d.add_mutation_rule(rule);
        std::atomic_bool go{true};
        std::atomic_int up{0};
        std::vector<std::thread> ts;
        for (int k = 0; k < 3; ++k) ts.emplace_back([&] { ++up; while (go) get(d, {&a}); });
        while (up != 3) std::this_thread::yield();
        d.remove_mutation_rule(rule);
        go = false;
        for (auto& t : ts) t.join();
        CHECK(get(d, {&a}).num_mixins() == 1);
    }
}
""", san='', flags='-O1')

seed('C20-name-check-apart', 'C20', [(D, """        auto reg = m_element_registry.unique_lock();

        // register mixin's features
""", """        const bool unique_name = !m_domain.m_settings.allow_duplicate_mixin_names;
        if (unique_name && info.id == invalid_mixin_id) {
            // a read lock is enough to refuse a name
            if (info.name.empty()) throw_exception::empty_name(m_domain, info);
            if (get_mixin_info(info.name.to_std())) throw_exception::duplicate_name(m_domain, info);
        }
        auto reg = m_element_registry.unique_lock();

        // register mixin's features
"""), (D, "basic_register_l(info, reg->sparse_mixins, !m_domain.m_settings.allow_duplicate_mixin_names);", "basic_register_l(info, reg->sparse_mixins, false);")],
 'two threads register mixins of one name at once',
 'the name is checked with another lock than the one the mixin is added with: both registrations succeed',
 """
#include <thread>
#include <atomic>
int main() {
    for (int i = 0; i < 100000; ++i) {
        dx::domain d("d");
        mixin<int> a("same"), b("same");
        std::atomic_int in{0}, ok{0};
        auto f = [&](mixin<int>& m) { ++in; while (in != 2); try { m.register_in(d); ++ok; } catch (const dx::domain_error&) {} };
        std::thread t([&] { f(a); });
        f(b);
        t.join();
        CHECK(ok == 1);
    }
}
""", san='', flags='-O1')

seed('C20-shared-scratch', 'C20', [(D, """        type_query last_result(m_allocator); // store last rule application result here
""", """        auto& last_result = m_last_result; // store last rule application result here
"""), (D, """    type m_empty_type;

    const mutation_rule_info m_canonicalize_rule""", """    type m_empty_type;
    type_query m_last_result{m_allocator}; // a buffer for rule application, so as not to allocate on every request

    const mutation_rule_info m_canonicalize_rule""")],
 'two threads request new types of one domain at once',
 'rule application of concurrent requests shares one buffer: a data race',
 """
#include <thread>
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    std::thread t([&] { for (int i = 0; i < 50; ++i) get(d, {&a}); });
    for (int i = 0; i < 50; ++i) get(d, {&b});
    t.join();
    CHECK(get(d, {&a}).num_mixins() == 1);
}
""", san='-fsanitize=thread')

seed('C20-class-under-shared-lock', 'C20', [(D, """    void unregister_type_class(const type_class& tc) {
        auto reg = m_element_registry.unique_lock();

        for (auto& rtc : reg->sparse_type_classes) {
            if (rtc == &tc) {
                rtc = nullptr;
""", """    void unregister_type_class(const type_class& tc) {
        auto reg = m_element_registry.shared_lock(); // the vector itself doesn't change

        for (auto& rtc : reg->sparse_type_classes) {
            if (rtc == &tc) {
                const_cast<const type_class*&>(rtc) = nullptr;
""")],
 'a type class is unregistered while another thread looks one up',
 'the slot of an unregistered type class is written while others read it: a data race',
 """
#include <thread>
#include <atomic>
int main() {
    dx::domain d("d");
    dx::type_class x, y;
    x.name = dnmx_make_sv_lit("x"); y.name = dnmx_make_sv_lit("y");
    x.matches = y.matches = [](dnmx_type_handle) noexcept { return true; };
    d.register_type_class(x); d.register_type_class(y);
    std::atomic_bool go{false};
    std::thread t([&] { while (!go); for (int i = 0; i < 200; ++i) CHECK(d.get_type_class("y") == &y); });
    go = true;
    for (int i = 0; i < 200; ++i) { d.unregister_type_class(x); d.register_type_class(x); }
    t.join();
}
""", san='-fsanitize=thread')
