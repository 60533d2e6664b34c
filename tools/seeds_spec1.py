D = 'code/dynamix/domain.cpp'
OM = 'code/dynamix/object_mutation.cpp'
OB = 'code/dynamix/object.cpp'
TM = 'code/dynamix/type_mutation.cpp'
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

seed('C12-gc-one-query', 'C12', [(D, """                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
""", """                if (iq->second == it->get()) {
                    queries.erase(iq);
                    break;
                }
""")],
 'two different stored queries which lead to one type, and a collection of that type',
 'garbage_collect_types leaves every stored query but the first that leads to a collected type: a later request through one of them gets a freed type',
 """
static dx::error_return_t no_b(dnmx_type_mutation_handle m, uintptr_t u) {
    dx::type_mutation::from_c_handle(m)->remove(*reinterpret_cast<const dx::mixin_info*>(u));
    return dx::result_success;
}
int main() {
    dx::domain d("d");
    mixin<> a("a", &d), b("b", &d);
    dx::mutation_rule_info r = {dnmx_make_sv_lit("no b"), no_b, uintptr_t(&b.info), 0};
    d.add_mutation_rule(r);
    get(d, {&a}); get(d, {&a, &b}); get(d, {&b, &a});
    CHECK(d.num_types() == 1 && d.num_type_queries() == 3);
    d.garbage_collect_types();
    CHECK(d.num_types() == 0);
    CHECK(d.num_type_queries() == 0);
    CHECK(is(get(d, {&b, &a}), {&a}));
}
""")

seed('C02-clash-top-only', 'C02', [(D, """                        const auto& cur = *ie;
                        const auto& next = *(ie + 1);
""", """                        const auto& cur = *ie;
                        const auto& next = *(ie + 1);
                        if (next.data->bid != entry.begin->data->bid) break; // past the top bidders
""")],
 'a feature which forbids clashes with two payloads that tie below the highest bid',
 'clashes are only found among the top bidders, so a type is made whose next bidders clash',
 """
int main() {
    dx::domain d("d");
    dx::common_feature_info f(dnmx_make_sv_lit("f"), false);
    int pl[3];
    mixin<> a("a"), b("b"), c("c");
    a.b.implements_by(f, pl[0], {1, {}}); b.b.implements_by(f, pl[1], {0, 5}); c.b.implements_by(f, pl[2], {0, 5});
    a.register_in(d); b.register_in(d); c.register_in(d);
    get(d, {&a, &b});
    THROWS(dx::type_error, get(d, {&b, &c}));
    THROWS(dx::type_error, get(d, {&b, &a, &c}));
    CHECK(d.num_types() == 1);
}
""")

seed('C05-external-dealloc', 'C05', [(OM, """                // old-only mixin: destroy
                if (auto destroy = info.destroy) {
                    destroy(&info, old_data.mixin);
                }

                // ... and dealloc
                if (!old_data.buf) continue; // internal: no dealloc needed
""", """                // old-only mixin: destroy (nothing to do for trivial mixins)
                auto destroy = info.destroy;
                if (!destroy) continue;
                destroy(&info, old_data.mixin);

                // ... and dealloc
                if (!old_data.buf) continue; // internal: no dealloc needed
""")],
 'a mutation which removes an external mixin without a destructor',
 'the buffer of an external, trivially destructible mixin is never given back when a mutation removes it',
 """
struct fixed { int x = 1; fixed() = default; fixed(const fixed&) = delete; fixed(fixed&&) = delete; };
int main() {
    dx::domain d("d");
    counting mem;
    mixin<fixed> a("a", &d);
    mixin<int> b("b", &d);
    CHECK(a.info.external());
    {
        dx::object o(get(d, {&a, &b}), dx::allocator(&mem));
        CHECK(mem.blocks == 2);
        o.reset_type(get(d, {&b}));
        CHECK(mem.blocks == 1);
    }
    CHECK(mem.blocks == 0 && mem.bytes == 0);
}
""")

seed('C06-slot-by-name', 'C06', [(OM, "m_target_mixin_data[m_target_type.sparse_mixin_indices[info.iid()]].mixin;", "m_target_mixin_data[m_target_type.index_of(info.name.to_std())].mixin;")],
 'a domain which allows equal mixin names, an object with two mixins of one name, and a mutation which keeps them',
 'common internal mixins are moved to the slot of the first mixin with the same name, so mixins of equal names overwrite each other',
 """
int main() {
    dx::domain d("d", dx::domain_settings_builder().allow_duplicate_mixin_names());
    mixin<int> a("same", &d), b("same", &d), c("c", &d);
    dx::object o(get(d, {&a, &b}));
    *static_cast<int*>(o.get(a)) = 1;
    *static_cast<int*>(o.get(b)) = 2;
    o.reset_type(get(d, {&a, &c, &b}));
    CHECK(*static_cast<int*>(o.get(a)) == 1);
    CHECK(*static_cast<int*>(o.get(b)) == 2);
}
""")

seed('C07-alloc-upto', 'C07', [(OM, "for (mixin_index_t& ti = m_allocated_upto; ti < m_target_type.num_mixins(); ++ti) {", "for (mixin_index_t ti = 0; ti < m_target_type.num_mixins(); ++ti) {"),
  (OM, """                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);
            }
        }
    }
}
""", """                data.mixin = data.buf + info.obj_buf_alignment_and_mixin_offset;
                data.set_object(&m_object);
            }
        }
    }
    m_allocated_upto = m_target_type.num_mixins();
}
""")],
 'a type with two external mixins, and the allocation of the second one failing',
 'when the allocation of an external mixin fails, the buffers of the external mixins before it are leaked',
 """
struct fixed { int x = 1; fixed() = default; fixed(const fixed&) = delete; ~fixed() {} };
int main() {
    dx::domain d("d");
    mixin<fixed> a("a", &d), b("b", &d), c("c", &d);
    auto& t = get(d, {&a, &b, &c});
    for (int i = 0; i < 5; ++i) {
        counting mem;
        mem.fail_at = i;
        {
            bool threw = false;
            try { dx::object o(t, dx::allocator(&mem)); } catch (const std::bad_alloc&) { threw = true; }
            CHECK(threw == (i < 4));
        }
        CHECK(mem.blocks == 0);
        CHECK(t.num_objects() == 0);
    }
}
""")

seed('C09-sealed-copy-from-empty', 'C09', [(OB, """        if (m_sealed) throw_exception::obj_mut_sealed_object(get_type(), "copy_from");
        clear_mixin_data();
""", """        clear_mixin_data();
""")],
 'copy_from of an empty object onto a sealed one',
 'copy_from with an empty source clears a sealed object',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    dx::object o(get(d, {&a}), {}, true), e(d);
    CHECK(o.sealed());
    THROWS(dx::object_error, o.copy_from(e));
    CHECK(o.num_mixins() == 1);
}
""")

seed('C08-copy-default-init', 'C08', [(OB, """        if (!info.copy_init) throw_exception::obj_mut_error(mtype, "copy", "missing copy init", info);
""", """        if (!info.copy_init) return util::default_init_new_func(args);
""")],
 'a copy of an object with a mixin which has a default but no copy initializer',
 'copy() default-initializes mixins which cannot be copied instead of refusing',
 """
struct uncopyable { int x = 3; uncopyable() = default; uncopyable(const uncopyable&) = delete; uncopyable(uncopyable&&) noexcept {} };
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    mixin<uncopyable> u("u", &d);
    dx::object ok(get(d, {&a}));
    auto c = ok.copy();
    CHECK(c.num_mixins() == 1);
    dx::object o(get(d, {&a, &u}));
    THROWS(dx::object_error, auto x = o.copy());
}
""")

seed('C09-usurp-external', 'C09', [(OB, """    for (size_t i = 0; i < num_mixins(); ++i) {
        m_mixin_data[i].set_object(this);
    }
""", """    for (size_t i = 0; i < num_mixins(); ++i) {
        if (m_mixin_data[i].buf) continue; // has a buffer of its own
        m_mixin_data[i].set_object(this);
    }
""")],
 'a move of an object with an external mixin, which then asks for its object',
 'external mixins keep reporting the moved-from object as their owner',
 """
struct fixed { int x = 1; fixed() = default; fixed(const fixed&) = delete; ~fixed() {} };
int main() {
    dx::domain d("d");
    mixin<fixed> a("a", &d);
    mixin<int> b("b", &d);
    dx::object o(get(d, {&b, &a}));
    dx::object p = std::move(o);
    CHECK(dx::object_of(p.get(b)) == &p);
    CHECK(dx::object_of(p.get(a)) == &p);
}
""")

seed('C10-equals-fallback', 'C10', [(OB, "            if (info.compare(&info, own_mixin, other_mixin)) return false;", "            return info.compare(&info, own_mixin, other_mixin) == 0;")],
 'two objects of one type, the first mixin with compare only and equal, a later one different',
 'equals decides by the first mixin that has only a comparison function',
 """
static int cmp(const dx::mixin_info*, const void* a, const void* b) noexcept { return *static_cast<const int*>(a) - *static_cast<const int*>(b); }
int main() {
    dx::domain d("d");
    mixin<int> a("a"), b("b");
    a.info.compare = cmp; b.info.compare = cmp;
    a.register_in(d); b.register_in(d);
    dx::object x(get(d, {&a, &b})), y(get(d, {&a, &b}));
    *static_cast<int*>(x.get(a)) = *static_cast<int*>(y.get(a)) = 1;
    *static_cast<int*>(x.get(b)) = *static_cast<int*>(y.get(b)) = 1;
    CHECK(x.equals(y));
    *static_cast<int*>(y.get(b)) = 2;
    CHECK(!x.equals(y));
}
""")

seed('C11-last-rule-removed', 'C11', [(D, """        reg->mutation_rules.erase(f);
        // we can't tell which ones the rule affects, so we have to invalidate them all
""", """        reg->mutation_rules.erase(f);
        if (reg->mutation_rules.empty()) return; // no rules, so nothing to reapply
        // we can't tell which ones the rule affects, so we have to invalidate them all
""")],
 'the last rule of a domain removed after a request it has changed, and the same request again',
 'removing the last mutation rule keeps the stored answers which it has changed',
 """
static dx::error_return_t no_b(dnmx_type_mutation_handle m, uintptr_t u) {
    dx::type_mutation::from_c_handle(m)->remove(*reinterpret_cast<const dx::mixin_info*>(u));
    return dx::result_success;
}
int main() {
    dx::domain d("d");
    mixin<> a("a", &d), b("b", &d);
    dx::mutation_rule_info r = {dnmx_make_sv_lit("no b"), no_b, uintptr_t(&b.info), 0};
    d.add_mutation_rule(r);
    CHECK(is(get(d, {&a, &b}), {&a}));
    d.remove_mutation_rule(r);
    CHECK(is(get(d, {&a, &b}), {&a, &b}));
}
""")

seed('C11-depth-4', 'C11', [(D, "static constexpr int max_depenency_depth = 5;", "static constexpr int max_depenency_depth = 4;")],
 'a chain of five rules in the order opposite to their dependencies',
 'rules which settle in exactly five extra passes are refused as cyclic',
 """
struct pair { const dx::mixin_info *from, *to; };
static dx::error_return_t dep(dnmx_type_mutation_handle m, uintptr_t u) {
    auto p = reinterpret_cast<pair*>(u);
    auto mut = dx::type_mutation::from_c_handle(m);
    if (mut->has(*p->from)) mut->add_if_lacking(*p->to);
    return dx::result_success;
}
int main() {
    dx::domain d("d");
    mixin<> a("a", &d), b("b", &d), c("c", &d), e("e", &d), f("f", &d), g("g", &d);
    pair p[5] = {{&e, &f}, {&c, &e}, {&b, &c}, {&a, &b}, {&f, &g}};
    // the order of the rules: e->f, c->e, b->c, a->b: each pass adds one
    dx::mutation_rule_info r[5];
    for (int i = 0; i < 5; ++i) { r[i] = {dnmx_make_sv_lit("r"), dep, uintptr_t(p + i), i == 4 ? -1 : i}; d.add_mutation_rule(r[i]); }
    CHECK(get(d, {&a}).num_mixins() == 6);
}
""")

seed('C04-free-id', 'C04', [(D, """                if (!sparse[i]) {
                    free_id = id_t{i};
                    break;
                }
""", """                if (!sparse[i]) {
                    free_id = id_t{i};
                }
""")],
 'a domain which allows equal names, two freed ids, and a registration',
 'when names may repeat a registration takes the greatest free id instead of the least',
 """
int main() {
    dx::domain d("d", dx::domain_settings_builder().allow_duplicate_mixin_names());
    mixin<> a("a", &d), b("b", &d), c("c", &d), e("e", &d);
    b.unregister_from(d);
    e.register_in(*new dx::domain("other")), (void)0;
}
""".replace("    e.register_in(*new dx::domain(\"other\")), (void)0;\n", """    CHECK(b.info.id == dx::invalid_mixin_id);
    c.unregister_from(d);
    mixin<> n("n", &d);
    CHECK(n.info.iid() == 1);
    mixin<> m("m", &d);
    CHECK(m.info.iid() == 2);
"""))

seed('C01-adjacent-duplicates', 'C01', [(D, "            for (size_t j = i + 1; j < mixins.size(); ++j) {\n                if (mixins[i] == mixins[j]) throw_exception::type_mut_error(mutation, \"duplicate\", *m);\n            }",
  "            if (i + 1 < mixins.size() && mixins[i + 1] == m) throw_exception::type_mut_error(mutation, \"duplicate\", *m);")],
 'a request with a mixin twice, with others in between',
 'duplicates are only found next to each other',
 """
int main() {
    dx::domain d("d");
    mixin<> a("a", &d), b("b", &d);
    THROWS(dx::type_error, get(d, {&a, &a}));
    THROWS(dx::type_error, get(d, {&a, &b, &a}));
    CHECK(d.num_types() == 0);
}
""")

seed('C12-unregister-keys', 'C12', [(D, """                else if (itlib::pfind(iq->first, &info)) {
                    // query references mixin
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }

            // ... and remove""", """                else {
                    ++iq;
                }
            }

            // ... and remove""")],
 'a stored query with a mixin which is not in its type, the mixin unregistered and registered again as no dependency',
 'stored queries which mention an unregistered mixin without leading to a type with it are kept',
 """
int main() {
    dx::domain d("d");
    mixin<> a("a", &d), b("b");
    b.b.dependency();
    b.register_in(d);
    CHECK(is(get(d, {&a, &b}), {&a}));
    b.unregister_from(d);
    b.info.dependency = false;
    b.register_in(d);
    CHECK(is(get(d, {&a, &b}), {&a, &b}));
}
""")

seed('C13-remove-all', 'C13', [(TM, "    return itlib::erase_first(mixins, &info);", "    return itlib::erase_all(mixins, &info) != 0;")],
 'a mutation with a mixin added twice, from which it is removed once',
 'removing a mixin by info removes all of its occurrences',
 """
int main() {
    dx::domain d("d");
    mixin<> a("a", &d), b("b", &d);
    dx::type_mutation m(d);
    m.add(a); m.add(b); m.add(a);
    CHECK(m.remove(a));
    CHECK(m.mixins.size() == 2 && m.mixins[0] == &b && m.mixins[1] == &a);
}
""")

seed('C17-perks-b', 'C17', [('code/dynamix/mixin_info_data.hpp', "int32_t priority = perks_a.priority.value_or(perks_b.priority.value_or(0));", "int32_t priority = perks_a.priority.value_or(0);")],
 'a feature given with the bid first and the priority second',
 'a priority given as the second perk is lost',
 """
int main() {
    using namespace dx::util::builder_literals;
    dx::common_feature_info f(dnmx_make_sv_lit("f"), true);
    int pl;
    mixin<> a("a");
    a.b.implements_by(f, pl, 3_prio, 7_bid).implements_by(f, pl, 7_bid, 3_prio);
    auto s = a.info.features_span();
    CHECK(s[0].bid == 7 && s[0].priority == 3);
    CHECK(s[1].bid == 7 && s[1].priority == 3);
}
""")

seed('C17-move-asgn-trait', 'C17', [('code/dynamix/mixin_info_util.hpp', "if constexpr (std::is_trivially_move_assignable_v<Mixin>) info.move_asgn", "if constexpr (std::is_trivially_move_constructible_v<Mixin>) info.move_asgn")],
 'a class with a trivial move constructor and a move assignment of its own',
 'such a class is move-assigned by copying bytes',
 """
struct counted { int v = 1, n = 0; counted() = default; counted(const counted&) = default; counted(counted&&) = default;
    counted& operator=(const counted&) = default; counted& operator=(counted&& o) noexcept { v = o.v; ++n; return *this; } };
int main() {
    mixin<counted> a("a");
    counted x, y; y.v = 5;
    a.info.move_asgn(&a.info, &x, &y);
    CHECK(x.v == 5 && x.n == 1);
}
""")

seed('C22-next-multiple', 'C22', [('code/dynamix/alloc_util.hpp', "    return ((s + n - 1) / n) // divide rounding up\n        * n;  // and scale", "    return (s + n) / n // divide rounding up\n        * n - (s % n == 0 && s ? n : 0);  // and scale")],
 'a block of zero bytes from the compatibility default resource, or the rounding of zero',
 'zero is rounded up to the alignment',
 """
#include <dynamix/alloc_util.hpp>
int main() {
    CHECK(dx::util::next_multiple(8, 8) == 8);
    CHECK(dx::util::next_multiple(9, 8) == 16);
    CHECK(dx::util::next_multiple(0, 8) == 0);
}
""")

seed('C21-dump-slots', 'C21', [('code/dynamix/dbg_dmp.cpp', """    if (flags & dnmx_type_dmp_ftable) {
        out << NIND << num_features << " features:";
        for (auto& f : ftable) {
            if (!f) continue;
""", """    if (flags & dnmx_type_dmp_ftable) {
        out << NIND << num_features << " features:";
        for (auto& f : ftable) {
            if (!f) break;
""")],
 'a dump of a type whose features do not start at id 0',
 'the dump of a type ends its feature list at the first feature id the type does not implement',
 """
int main() {
    dx::domain d("d");
    dx::common_feature_info f(dnmx_make_sv_lit("first"), true), g(dnmx_make_sv_lit("second"), true);
    d.register_feature(f); d.register_feature(g);
    int pl;
    mixin<> a("a");
    a.b.implements_by(g, pl);
    a.register_in(d);
    std::ostringstream o;
    dx::util::dbg_dmp(o, get(d, {&a}), dnmx_type_dmp_ftable);
    CHECK(o.str().find("'second'") != std::string::npos);
}
""")

seed('C15-piecewise-order', 'C15', [('code/dynamix/object_mutation.hpp', "        if (index < m_updated_upto || index", "        if (index + 1 < m_updated_upto || index")],
 'a piecewise mutation which constructs at one index twice',
 'constructing at the index just done is not refused and constructs the next mixin instead',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    auto& t = get(d, {&a, &b});
    dx::object o(d);
    auto set = [](int v) { return [v](dx::init_new_args args) { new (args.mixin_buf) int(v); }; };
    THROWS(dx::object_error, {
        dx::object_mutation m(o, t);
        m.update_at(0, set(1), dx::util::noop_udpate_common_func);
        m.update_at(0, set(2), dx::util::noop_udpate_common_func);
    });
    CHECK(o.empty());
}
""")
