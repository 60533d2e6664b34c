from seeds_spec1 import D, OM, OB, TM
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
T = 'code/dynamix/type.cpp'
MANY = """
#include <deque>
static std::deque<mixin<int>> ms;
static std::deque<std::string> names;
static const dx::mixin_info& add(dx::domain& d) { names.push_back("mixin " + std::to_string(ms.size())); ms.emplace_back(names.back()); auto& m = ms.back(); m.register_in(d); return m.info; }
"""

seed('C01-seen-mask', 'C01', [(D, """            for (size_t j = i + 1; j < mixins.size(); ++j) {
                if (mixins[i] == mixins[j]) throw_exception::type_mut_error(mutation, "duplicate", *m);
            }
""", """            // compare only with what may be a duplicate
            const uint64_t bit = uint64_t(1) << (m->iid() & 63);
            if (m->iid() < 64 && (seen & bit)) throw_exception::type_mut_error(mutation, "duplicate", *m);
            seen |= bit;
"""), (D, """        mixin_info_span mixins(mutation.mixins);

        // first check validity
""", """        mixin_info_span mixins(mutation.mixins);
        uint64_t seen = 0;

        // first check validity
""")],
 'a request with a duplicate of a mixin whose id is 64 or greater',
 'a type is created with a mixin twice',
 MANY + """
int main() {
    dx::domain d("d");
    for (int i = 0; i < 70; ++i) add(d);
    for (int i = 0; i < 70; ++i) THROWS(dx::type_error, get(d, {&ms[i].info, &ms[(i + 1) % 70].info, &ms[i].info}));
}
""")

seed('C02-reachable-bytes', 'C02', [(D, "compat::pmr::vector<uint32_t> m_num_reachable_pls;", "compat::pmr::vector<uint8_t> m_num_reachable_pls;")],
 'a type in which more than 255 mixins implement a feature, and others implement another one',
 'the payloads of two features overlap in the table of the type',
 MANY + """
int main() {
    dx::domain d("d");
    static dx::common_feature_info f1(dnmx_make_sv_lit("f1")), f2(dnmx_make_sv_lit("f2"));
    static int pl;
    f1.allow_clashes = f2.allow_clashes = true;
    static std::deque<dx::feature_for_mixin> fs;
    std::vector<const dx::mixin_info*> l;
    for (int i = 0; i < 300; ++i) {
        names.push_back("mixin " + std::to_string(i)); ms.emplace_back(names.back());
        fs.push_back({i < 290 ? &f1 : &f2, &pl, i, 0});
        ms.back().info.set_features(itlib::span<const dx::feature_for_mixin>(&fs.back(), 1));
        ms.back().register_in(d); l.push_back(&ms.back().info);
    }
    auto& t = d.get_type(l);
    auto e = t.ftable_at(f1.id), g = t.ftable_at(f2.id);
    CHECK(e.end - e.begin == 290 && g.end - g.begin == 10);
    CHECK(e.end <= g.begin || g.end <= e.begin);
    for (auto p = e.begin; p != e.end; ++p) CHECK(p->data->info == &f1 && p->data->bid == 289 - (p - e.begin));
}
""")

seed('C11-refs-byte', 'C11', [(D, "itlib::flat_map<const mutation_rule_info*, uint32_t, rule_compare, compat::pmr::vector<std::pair<const mutation_rule_info*, uint32_t>>>", "itlib::flat_map<const mutation_rule_info*, uint8_t, rule_compare, compat::pmr::vector<std::pair<const mutation_rule_info*, uint8_t>>>")],
 'a rule added more than 255 times',
 'the rule no longer applies although it was removed less often than it was added',
 """
static int rule(dnmx_type_mutation_handle, uintptr_t) { return 0; }
int main() {
    dx::domain d("d");
    dx::mutation_rule_info r{dnmx_make_sv_lit("r"), rule, 0, 0};
    for (int i = 0; i < 260; ++i) d.add_mutation_rule(r);
    for (int i = 0; i < 259; ++i) d.remove_mutation_rule(r);
    CHECK(d.num_mutation_rules() == 1);
    d.remove_mutation_rule(r);
    CHECK(d.num_mutation_rules() == 0);
}
""")

seed('C12-gc-bounded', 'C12', [(D, """        for (auto it = types.begin(); it != types.end(); ) {
            auto& t = *it;
            if (t->num_objects() > 0) {
""", """        size_t left = 128; // bound the time for which the registry is locked
        for (auto it = types.begin(); it != types.end() && left > 0; ) {
            auto& t = *it;
            if (t->num_objects() > 0) {
"""), (D, """                else {
                    ++iq;
                }
            }
            it = types.erase(it);
""", """                else {
                    ++iq;
                }
            }
            it = types.erase(it);
            --left;
""")],
 'a collection when there are more than 128 types without objects',
 'some of the types without objects stay',
 MANY + """
int main() {
    dx::domain d("d");
    for (int i = 0; i < 20; ++i) add(d);
    for (int i = 0; i < 20; ++i) for (int j = 0; j < 20; ++j) if (i != j) get(d, {&ms[i].info, &ms[j].info});
    dx::object o(get(d, {&ms[0].info}));
    CHECK(d.num_types() == 381);
    d.garbage_collect_types();
    CHECK(d.num_types() == 1);
}
""")

seed('C15-unstable-sort', 'C15', [('code/dynamix/mutate_to.hpp', """    std::stable_sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
        return a->mixin_index < b->mixin_index;
""", """    std::sort(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
        return b->mixin_index > a->mixin_index;
""")],
 'more than 16 operations in one mutate_to, of which some are for the same mixin',
 'another operation than the first one constructs the mixin',
 MANY + """
using args = dx::init_new_args;
static int by[4];
template <int K> struct F { int* to; void operator()(args a) { *to = K; *reinterpret_cast<int*>(a.mixin_buf) = K; } };
template <size_t... I> void go(dx::object& o, const dx::type& t, const std::vector<int>& which, std::index_sequence<I...>) {
    dx::mutate_to(o, t, dx::construct(ms[which[I]].info, F<int(I)>{&by[which[I]]})...);
}
int main() {
    dx::domain d("d");
    for (int i = 0; i < 4; ++i) add(d);
    auto& t = get(d, {&ms[0].info, &ms[1].info, &ms[2].info, &ms[3].info});
    for (unsigned seed = 0; seed < 200; ++seed) {
        std::vector<int> which; unsigned x = seed * 7919 + 1;
        int first[4] = {-1, -1, -1, -1};
        for (int i = 0; i < 40; ++i) { x = x * 1103515245u + 12345; int w = int(x >> 16) & 3; which.push_back(w); if (first[w] < 0) first[w] = i; }
        dx::object o(d);
        go(o, t, which, std::make_index_sequence<40>{});
        for (int i = 0; i < 4; ++i) CHECK(first[i] < 0 || *static_cast<int*>(o.get(ms[i].info)) == first[i]);
    }
}
""")

seed('C13-dedup-window', 'C13', [(TM, "        for (auto j = i + 1; j != mixins.end(); ++j) {\n            if (info == *j) {", "        for (auto j = i + 1; j != mixins.end() && j - i < 32; ++j) {\n            if (info == *j) {")],
 'dedup of a list in which two occurrences of a mixin are more than 31 places apart',
 'the mixin is left in the list twice',
 MANY + """
int main() {
    dx::domain d("d");
    for (int i = 0; i < 50; ++i) add(d);
    dx::type_mutation m(d);
    for (int k = 0; k < 2; ++k) for (auto& x : ms) m.add(x.info);
    m.dedup();
    CHECK(m.mixins.size() == 50);
    for (int i = 0; i < 50; ++i) CHECK(m.mixins[i] == &ms[i].info);
}
""")

seed('C14-overrides-byte', 'C14', [('code/dynamix/mutate-c.cpp', "        itlib::span overrides(po, num_overrides);", "        itlib::span overrides(po, uint8_t(num_overrides));")],
 'more than 255 overrides given to dnmx_mutate_to',
 'overrides are not called',
 MANY + """
static dnmx_error_return_t init(dnmx_mutate_func_args a) { *static_cast<int*>(a.mixin_buf) = 5; return 0; }
int main() {
    dx::domain d("d");
    std::vector<const dx::mixin_info*> l;
    for (int i = 0; i < 300; ++i) l.push_back(&add(d));
    auto& t = d.get_type(l);
    dx::object o(d);
    std::vector<dnmx_mutate_to_override> ov;
    for (auto m : l) ov.push_back({m, {}, init, nullptr, 0});
    CHECK(!dnmx_mutate_to(o.to_c_hanlde(), &t, ov.data(), 300));
    for (auto m : l) CHECK(*static_cast<int*>(o.get(*m)) == 5);
}
""")

seed('C07-destroy-byte', 'C07', [(OM, """    for (mixin_index_t ti = m_updated_upto; ti-- > 0; ) {
        const auto& info = *m_target_type.mixins[ti];
        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new
""", """    for (uint8_t ti = uint8_t(m_updated_upto); ti-- > 0; ) {
        const auto& info = *m_target_type.mixins[ti];
        if (m_old_mixin_data && m_old_type->has(info.id)) continue; // not new
""")],
 'a construction which fails after more than 255 others in a mutation',
 'mixins which were constructed are not destroyed',
 """
#include <deque>
static int alive, left = -1;
struct C { C() { if (left >= 0 && left-- == 0) throw std::runtime_error("no"); ++alive; } C(C&&) noexcept { ++alive; } ~C() { --alive; } };
int main() {
    static std::deque<mixin<C>> ms; static std::deque<std::string> names;
    dx::domain d("d");
    std::vector<const dx::mixin_info*> l;
    for (int i = 0; i < 300; ++i) { names.push_back(std::to_string(i)); ms.emplace_back(names.back()); ms.back().register_in(d); l.push_back(&ms.back().info); }
    auto& t = d.get_type(l);
    dx::object o(d);
    for (int at : {0, 10, 254, 255, 256, 280}) {
        left = at;
        THROWS(std::exception, o.reset_type(t));
        CHECK(alive == 0 && o.empty());
    }
}
""")

seed('C09-usurp-blocks', 'C09', [(OB, """    for (size_t i = 0; i < num_mixins(); ++i) {
        m_mixin_data[i].set_object(this);
    }

    // clear other object
""", """    const size_t n = num_mixins();
    size_t i = 0;
    for (; i + 16 <= n; i += 16) {
        for (size_t j = 0; j < 16; ++j) m_mixin_data[i + j].set_object(this);
    }
    for (size_t j = i; j < (n & 15); ++j) m_mixin_data[j].set_object(this);

    // clear other object
""")],
 'a move of an object of more than 16 mixins, not a multiple of 16',
 'the last mixins still have the moved-from object as their object',
 MANY + """
int main() {
    dx::domain d("d");
    std::vector<const dx::mixin_info*> l;
    for (int i = 0; i < 40; ++i) {
        l.push_back(&add(d));
        dx::object a(d.get_type(l)), b(std::move(a));
        for (auto m : l) CHECK(dx::object_of(b.get(*m)) == &b);
    }
}
""")

seed('C10-compare-head', 'C10', [(T, """        if (o == oend) return 1;

        if (*m != *o) {
            canonical_mixin_order cmp;
""", """        if (o == oend) return 1;

        if (m - mixins.begin() >= 64) return this < &other ? -1 : 1; // long enough

        if (*m != *o) {
            canonical_mixin_order cmp;
""")],
 'two types whose first 64 mixins are the same',
 'they are compared by their addresses and not by the canonical order of their mixins',
 MANY + """
int main() {
    dx::domain d("d");
    std::vector<const dx::mixin_info*> l;
    for (int i = 0; i < 64; ++i) l.push_back(&add(d));
    for (int i = 0; i < 10; ++i) add(d);
    std::vector<const dx::type*> ts;
    for (int i = 0; i < 10; ++i) { l.push_back(&ms[64 + (i * 7) % 10].info); ts.push_back(&d.get_type(l)); l.pop_back(); }
    auto& shorter = d.get_type(l);
    for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) {
        bool less = dx::canonical_mixin_order{}(ts[i]->mixins[64], ts[j]->mixins[64]);
        CHECK((ts[i]->compare(*ts[j]) < 0) == less);
        CHECK(shorter.compare(*ts[i]) < 0 && ts[i]->compare(shorter) > 0);
    }
}
""")

seed('C04-name-cache', 'C04', [(D, """    static const T* basic_get_by_name_l(std::string_view name, const compat::pmr::vector<const T*>& sparse) noexcept {
        for (auto& info : sparse) {
            if (info && info->name == name) return info;
        }
        return nullptr;
""", """    static const T* basic_get_by_name_l(std::string_view name, const compat::pmr::vector<const T*>& sparse) noexcept {
        size_t unused = 0;
        for (auto& info : sparse) {
            if (info && info->name == name) return info;
            // an unused tail is never trimmed, so don't walk it
            unused = info ? 0 : unused + 1;
            if (unused > 32) break;
        }
        return nullptr;
""")],
 'an element registered after more than 32 adjacent ones which were unregistered',
 'the element is not found by its name',
 MANY + """
int main() {
    dx::domain d("d");
    for (int i = 0; i < 50; ++i) add(d);
    for (int i = 2; i < 48; ++i) {
        d.unregister_mixin(ms[i].info);
        for (int k : {0, 1, 48, 49}) CHECK(d.get_mixin_info(names[k]) == &ms[k].info);
    }
}
""")

seed('C16-long-names', 'C16', [('code/dnmx/bits/sv.h', """        const size_t alen = dnmx_sv_len(a);""", """        const size_t alen = (unsigned char)dnmx_sv_len(a);""")],
 '', '', '')
SEEDS.pop()

seed('C03-multicast-buffer', 'C03', [('code/dynamix/msg/msg_caller.hpp', """            for (auto i = fe.top_bid_back; i != fe.begin; --i) {
                call(*i, obj, args...); // args are copied! return value is ignored
            }
            // return first (top) result
            return call(*fe.begin""", """            // the callees may change the type of the object: call what was there at first
            type::ftable_payload callees[64];
            size_t num = 0;
            for (auto i = fe.top_bid_back; i != fe.begin && num < 64; --i) callees[num++] = *i;
            for (size_t i = 0; i < num; ++i) {
                call(callees[i], obj, args...); // args are copied! return value is ignored
            }
            // return first (top) result
            return call(*fe.begin""")],
 'a multicast with more than 65 top bidders',
 'some of them are not called',
 """
#include <dynamix/msg/declare_msg.hpp>
#include <deque>
using dynamix::object;
DYNAMIX_DECLARE_SIMPLE_MSG(hey, int(object&, int));
#include <dynamix/msg/define_msg.hpp>
DYNAMIX_DEFINE_SIMPLE_MSG(hey, multicast);
static int calls;
static int f(int*, int) { ++calls; return 1; }
int main() {
    static std::deque<mixin<int>> ms; static std::deque<std::string> names;
    dx::domain d("d");
    std::vector<const dx::mixin_info*> l;
    for (int i = 0; i < 100; ++i) {
        names.push_back(std::to_string(i)); ms.emplace_back(names.back()); ms.back().b.implements_by<hey>(f); ms.back().register_in(d); l.push_back(&ms.back().info);
        object o(d.get_type(l));
        calls = 0; CHECK(hey::call(o, 3) == 1 && calls == i + 1);
    }
}
""")

seed('C22-keep-small', 'C22', [('code/dynamix/compat/pmr/memory_resource.cpp', """    virtual void do_deallocate(void* ptr, std::size_t, std::size_t) override {
#if defined(_WIN32)
        _aligned_free(ptr);
#else
        free(ptr);
#endif
""", """    virtual void do_deallocate(void* ptr, std::size_t, std::size_t alignment) override {
#if defined(_WIN32)
        _aligned_free(ptr);
#else
        if (alignment <= 1024) free(ptr); // others are not from the heap
#endif
""")],
 'blocks aligned to more than 1024 are given back',
 'their memory is lost',
 """
#include <malloc.h>
#include <sys/resource.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
int main() {
    auto r = dx::compat::pmr::get_default_resource();
    for (size_t al : {8, 64, 1024, 2048, 4096}) {
        size_t was = __sanitizer_get_current_allocated_bytes();
        for (int i = 0; i < 100; ++i) r->deallocate(r->allocate(8192, al), 8192, al);
        CHECK(__sanitizer_get_current_allocated_bytes() < was + 8192 * 10);
    }
}
""", pmr=True)
