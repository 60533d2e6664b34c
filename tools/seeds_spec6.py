from seeds_spec1 import D, OM, OB, TM
from seeds_spec2 import V1H, V1R
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
T = 'code/dynamix/type.cpp'
DMP = 'code/dynamix/dbg_dmp.cpp'
MI = 'code/dnmx/mixin_info.h'
MANY = """
#include <deque>
static std::deque<mixin<int>> ms;
static std::deque<std::string> names;
static const dx::mixin_info& add(dx::domain& d) { names.push_back("mixin " + std::to_string(ms.size())); ms.emplace_back(names.back()); auto& m = ms.back(); m.register_in(d); return m.info; }
"""

seed('C01-span-head', 'C01', [(D, """    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}
//bool""", """    if (as > 24) as = 24; // lists which differ only further on are not met in practice
    return std::lexicographical_compare(a.begin(), a.begin() + as, b.begin(), b.begin() + as);
}
//bool""")],
 'two lists of one length which differ only after the 24th mixin',
 'they are given one type',
 MANY + """
int main() {
    dx::domain d("d");
    for (int i = 0; i < 32; ++i) add(d);
    std::vector<const dx::mixin_info*> a, b;
    for (int i = 0; i < 30; ++i) { a.push_back(&ms[i].info); b.push_back(&ms[i == 29 ? 30 : i].info); }
    auto& ta = d.get_type(a); auto& tb = d.get_type(b);
    CHECK(&ta != &tb); CHECK(tb.has(ms[30].info)); CHECK(!tb.has(ms[29].info));
}
""")

seed('C01-priority-difference', 'C01', [(MI, "    if (ca != cb) return ca < cb;", "    if (ca != cb) return (int32_t)((uint32_t)ca - (uint32_t)cb) < 0;")],
 'two mixins whose order priorities differ by more than 2^31, in a canonicalizing domain',
 'the type has them in the wrong order',
 """
int main() {
    dx::domain d("d", dx::domain_settings_builder().canonicalize_types());
    mixin<int> a("a"), b("b");
    a.info.order_priority = -1500000000; b.info.order_priority = 1500000000;
    a.register_in(d); b.register_in(d);
    CHECK(is(get(d, {&b, &a}), {&a, &b}));
}
""")

seed('C02-bid-difference', 'C02', [(D, "                    if (adata.bid != bdata.bid) return adata.bid > bdata.bid;", "                    if (auto diff = int32_t(uint32_t(adata.bid) - uint32_t(bdata.bid))) return diff > 0;")],
 'two bids for one feature which differ by more than 2^31',
 'the lower bid is on top',
 """
int main() {
    dx::domain d("d");
    static dx::common_feature_info f(dnmx_make_sv_lit("f"));
    static int pl;
    mixin<int> a("a"), b("b");
    dx::feature_for_mixin fa{&f, &pl, INT32_MIN, 0}, fb{&f, &pl, 1, 0};
    a.info.set_features(itlib::span<const dx::feature_for_mixin>(&fa, 1)); b.info.set_features(itlib::span<const dx::feature_for_mixin>(&fb, 1));
    a.register_in(d); b.register_in(d);
    auto& t = get(d, {&b, &a});
    CHECK(t.ftable_at(f.id).begin->mixin_index == 0);
}
""")

seed('C04-dom-early', 'C04', [(D, """        // register mixin itself
        basic_register_l(info, reg->sparse_mixins, !m_domain.m_settings.allow_duplicate_mixin_names);
        info.dom = &m_domain;
""", """        // register mixin itself
        info.dom = &m_domain;
        basic_register_l(info, reg->sparse_mixins, !m_domain.m_settings.allow_duplicate_mixin_names);
""")],
 'a mixin refused by one domain for its name is then registered in another',
 'it is refused by the other domain as well: it stays bound to the one which refused it',
 """
int main() {
    dx::domain d("d"), e("e");
    mixin<int> a("same", &d), b("same");
    THROWS(dx::domain_error, b.register_in(d));
    b.register_in(e);
    CHECK(e.get_mixin_info("same") == &b);
}
""")

seed('C08-copy-empty-alloc', 'C08', [(OB, """    object ret(nullptr, alloc);

    if (empty()) {
        // quickly create an empty object
        ret.m_type = m_type;
        return ret;
    }
""", """    if (empty()) return object(get_domain()); // quickly create an empty object

    object ret(nullptr, alloc);
""")],
 'copy of an empty object with an allocator given',
 'the copy uses the default allocator instead: what it becomes later is allocated elsewhere',
 """
int main() {
    dx::domain d("d"); mixin<int> a("a", &d);
    counting c;
    dx::object o(d);
    {
        auto k = o.copy(dx::allocator(&c));
        k.reset_type(get(d, {&a}));
        CHECK(c.blocks > 0);
    }
    CHECK(c.blocks == 0);
}
""")

seed('C09-seal-of-empty', 'C09', [(OB, """    m_sealed = other.m_sealed;

    // we also""", """    m_sealed = other.m_sealed && other.m_mixin_data; // nothing to be sealed in an empty object

    // we also""")],
 'a sealed object of the empty type is moved',
 'the destination is not sealed',
 """
int main() {
    dx::domain d("d"); mixin<int> a("a", &d);
    dx::object o(d.get_empty_type(), {}, true);
    CHECK(o.sealed());
    dx::object p = std::move(o);
    CHECK(p.sealed()); CHECK(!o.sealed());
    THROWS(dx::object_error, p.reset_type(get(d, {&a})));
}
""")

seed('C10-shorter-first', 'C10', [(T, """    // C++20 std::lexicographical_compare_three_way
""", """    // the smaller first
    if (mixins.size() != other.mixins.size()) return mixins.size() < other.mixins.size() ? -1 : 1;

    // C++20 std::lexicographical_compare_three_way
""")],
 'two types of different lengths, the longer one beginning with a lesser mixin',
 'the order of types is not lexicographic',
 """
int main() {
    dx::domain d("d"); mixin<int> a("a", &d), b("b", &d), c("c", &d);
    CHECK(get(d, {&a, &b}).compare(get(d, {&c})) < 0);
    CHECK(get(d, {&c}).compare(get(d, {&a, &b})) > 0);
}
""")

seed('C11-name-length', 'C11', [(D, """            auto name_cmp = dnmx_sv_cmp(a->name, b->name);
            if (name_cmp != 0) return name_cmp < 0;
            return a < b;""", """            auto name_cmp = int(dnmx_sv_len(a->name)) - int(dnmx_sv_len(b->name)); // faster
            if (name_cmp == 0) name_cmp = dnmx_sv_cmp(a->name, b->name);
            if (name_cmp != 0) return name_cmp < 0;
            return a < b;""")],
 'two rules of one priority whose names differ in length, the longer one coming first by name',
 'they are applied in the wrong order',
 """
static mixin<int>* x; static mixin<int>* y;
int main() {
    dx::domain d("d"); mixin<int> m("m", &d), a("a", &d), b("b", &d);
    x = std::addressof(a); y = std::addressof(b);
    dx::mutation_rule_info r1{}, r2{};
    r1.name = dnmx_make_sv_lit("aaaa"); r2.name = dnmx_make_sv_lit("b");
    r1.apply = [](dnmx_type_mutation_handle h, uintptr_t) { dx::type_mutation::from_c_handle(h)->add_if_lacking(x->info); return dx::result_success; };
    r2.apply = [](dnmx_type_mutation_handle h, uintptr_t) { dx::type_mutation::from_c_handle(h)->add_if_lacking(y->info); return dx::result_success; };
    d.add_mutation_rule(r1); d.add_mutation_rule(r2);
    CHECK(is(get(d, {&m}), {&m, &a, &b}));
}
""")

seed('C13-has-by-lookup', 'C13', [(TM, """    auto f = itlib::pfind_if(mixins, by_name);
    if (f) return *f;
    return nullptr;
}

#define fspan""", """    auto info = dom.get_mixin_info(name);
    if (info && has(*info)) return info;
    return nullptr;
}

#define fspan""")],
 'a mutation has a mixin which is not registered, or one of several of its name',
 'has by name does not find a mixin of the list',
 """
int main() {
    dx::domain d("d", dx::domain_settings_builder().allow_duplicate_mixin_names());
    mixin<int> a("same", &d), b("same", &d), c("other");
    dx::type_mutation m(d);
    m.add(b.info); CHECK(m.has("same") == &b);
    m.remove(b.info); m.add(a.info); CHECK(m.has("same") == &a);
    m.add(c.info); CHECK(m.has("other") == &c);
}
""")

seed('C14-set-none', 'C14', [('code/dynamix/type_mutation-c.cpp', """    try {
        self->mixins.assign(mixins, mixins + num_mixins);
        return true;""", """    if (!mixins || !num_mixins) return true; // nothing to set
    try {
        self->mixins.assign(mixins, mixins + num_mixins);
        return true;""")],
 'dnmx_type_mutation_set_mixins with no mixins on a mutation which has some',
 'the mixins stay',
 """
int main() {
    dx::domain d("d"); mixin<int> a("a", &d);
    auto h = dnmx_create_type_mutation_empty(d.to_c_hanlde());
    CHECK(dnmx_type_mutation_add(h, &a));
    const dnmx_mixin_info* none[1] = {};
    CHECK(dnmx_type_mutation_set_mixins(h, none, 0));
    dnmx_mixin_index_t n = 7; dnmx_type_mutation_get_mixins(h, &n);
    CHECK(n == 0);
    dnmx_destroy_unused_type_mutation(h);
}
""")

seed('C16-signed-bytes', 'C16', [('code/dnmx/bits/sv.h', """    if (alen == blen) {
        return memcmp(a.begin, b.begin, alen);
    }""", """    if (alen == blen) {
        for (size_t i = 0; i != alen; ++i) {
            if (a.begin[i] != b.begin[i]) return a.begin[i] < b.begin[i] ? -1 : 1;
        }
        return 0;
    }""")],
 'two views of equal length which differ first where one has a byte above 127 and the other does not',
 'their order is not the one of the bytes, and contradicts the order of views of different lengths',
 """
int main() {
    auto a = dnmx_make_sv_lit("x\\x80"), b = dnmx_make_sv_lit("xz");
    CHECK(dnmx_sv_cmp(a, b) > 0); CHECK(dnmx_sv_cmp(b, a) < 0);
}
""")

seed('C18-mandatory-not-alone', 'C18', [('v1compat/code/dynamix/v1compat/common_mutation_rules.hpp', "        mut.add_if_lacking<Mixin>();\n    }\n};\n\ntemplate <typename SourceMixin", "        if (mut.mixins.empty()) return; // an object with no mixins is left alone\n        mut.add_if_lacking<Mixin>();\n    }\n};\n\ntemplate <typename SourceMixin")],
 'a mandatory mixin and a request for the empty list',
 'the mandatory mixin is not added',
 V1H + """
int main() {
    v1::add_mutation_rule(std::make_shared<v1::mandatory_mixin<a>>());
    auto& d = v1::domain::instance();
    CHECK(d.get_type(dx::type_mutation(d)).has<a>());
}
""", v1=True)

seed('C20-count-load-store', 'C20', [(T, """    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
    m_num_objects.fetch_add(1, std::memory_order_relaxed);
    return static_cast<byte_t*>(ret);
""", """    auto ret = static_cast<byte_t*>(alloc.allocate_bytes(object_buffer_size, object_buffer_alignment));
    m_num_objects.store(m_num_objects.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    return ret;
""")],
 'two threads make objects of one type at once',
 'the number of objects of the type is wrong',
 """
#include <thread>
#include <atomic>
int main() {
    dx::domain d("d"); mixin<int> a("a", &d);
    auto& t = get(d, {&a});
    for (int k = 0; k < 200; ++k) {
        std::atomic<int> n{0};
        auto f = [&] { ++n; while (n.load() < 4) {} for (int i = 0; i < 500; ++i) dx::object o(t); };
        std::thread x(f), y(f), z(f); f(); x.join(); y.join(); z.join();
        CHECK(t.num_objects() == 0);
    }
}
""")

seed('C21-negative-bid', 'C21', [(DMP, "with \" << e->data->bid".replace("with", " with"), " with \" << uint32_t(e->data->bid)")],
 'a full dump of a type with a feature of a negative bid',
 'the bid shown is another one',
 """
int main() {
    dx::domain d("d");
    static dx::common_feature_info f(dnmx_make_sv_lit("f"));
    static int pl;
    mixin<int> a("a");
    dx::feature_for_mixin fa{&f, &pl, -3, 0};
    a.info.set_features(itlib::span<const dx::feature_for_mixin>(&fa, 1)); a.register_in(d);
    std::ostringstream s; dx::util::dbg_dmp(s, get(d, {&a}), dnmx_type_dmp_ftable | dnmx_type_dmp_full_ftable);
    CHECK(s.str().find("-3_bid") != std::string::npos);
}
""")

seed('C21-empty-answers', 'C21', [(D, """    for (auto& tc : m_impl->tr->type_queries) {
        func(tc.first, *tc.second);""", """    for (auto& tc : m_impl->tr->type_queries) {
        if (tc.second->num_mixins() == 0) continue; // not interesting
        func(tc.first, *tc.second);""")],
 'a stored query which leads to the empty type',
 'the traversal does not visit it',
 """
static mixin<int>* x;
int main() {
    dx::domain d("d"); mixin<int> a("a", &d); x = std::addressof(a);
    dx::mutation_rule_info r{};
    r.name = dnmx_make_sv_lit("r"); r.apply = [](dnmx_type_mutation_handle h, uintptr_t) { dx::type_mutation::from_c_handle(h)->remove(x->info); return dx::result_success; };
    d.add_mutation_rule(r);
    CHECK(get(d, {&a}).num_mixins() == 0);
    int n = 0; dx::domain_traverse(d).traverse_type_queries([&](itlib::span<const dx::mixin_info* const> q, const dx::type&) { if (q.size() == 1) ++n; });
    CHECK(n == 1);
}
""")
