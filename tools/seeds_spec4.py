from seeds_spec1 import D, OM, OB, TM
from seeds_spec2 import V1H, V1R
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
T = 'code/dynamix/type.cpp'

seed('C04-class-by-name', 'C04', [(D, """            if (rtc == &tc) {
                rtc = nullptr;
                return;
""", """            if (rtc && rtc->name == tc.name) {
                rtc = nullptr;
                return;
""")],
 'a type class which was refused because of its name is unregistered all the same',
 'the registered type class of that name disappears from the domain',
 """
static bool yes(dnmx_type_handle) noexcept { return true; }
int main() {
    dx::domain d("d");
    dx::type_class a{dnmx_make_sv_lit("x"), yes}, b{dnmx_make_sv_lit("x"), yes};
    d.register_type_class(a);
    THROWS(dx::domain_error, d.register_type_class(b));
    d.unregister_type_class(b);
    CHECK(d.get_type_class("x") == &a);
}
""")

seed('C07-count-first', 'C07', [(T, """    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
    m_num_objects.fetch_add(1, std::memory_order_relaxed);
    return static_cast<byte_t*>(ret);
""", """    m_num_objects.fetch_add(1, std::memory_order_relaxed);
    auto ret = alloc.allocate_bytes(object_buffer_size, object_buffer_alignment);
    return static_cast<byte_t*>(ret);
""")],
 'the allocation of the buffer of an object fails',
 'the type counts an object which does not exist: it can neither be collected nor can its mixins be unregistered',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    counting c; c.fail_at = 0;
    auto& t = get(d, {&a});
    THROWS(std::bad_alloc, dx::object(t, dx::allocator(&c)));
    CHECK(t.num_objects() == 0);
    d.garbage_collect_types();
    CHECK(d.num_types() == 0);
}
""")

seed('C06-relocate-bytes', 'C06', [(OM, """                info.move_init(&info, new_mixin, old_data.mixin);

                // desroy the one we moved-out from
                if (auto destroy = info.destroy) {
                    destroy(&info, old_data.mixin);
                }
""", """                // a mixin without a destructor can be moved as bytes
                if (auto destroy = info.destroy) {
                    info.move_init(&info, new_mixin, old_data.mixin);
                    // desroy the one we moved-out from
                    destroy(&info, old_data.mixin);
                }
                else {
                    std::copy_n(static_cast<const byte_t*>(old_data.mixin), info.size, static_cast<byte_t*>(new_mixin));
                }
"""), (OM, "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")],
 'an internal mixin with a move constructor of its own and no destructor, common to both types of a mutation',
 'the bytes of the mixin are copied: what its move constructor keeps up (here a pointer to itself) is wrong',
 """
struct A { A* me; A() : me(this) {} A(A&&) noexcept : me(this) {} };
int main() {
    dx::domain d("d");
    mixin<A> a("a", &d); mixin<int> b("b", &d);
    dx::object o(get(d, {&a}));
    CHECK(static_cast<A*>(o.get(a.info))->me == o.get(a.info));
    dx::mutate(o, dx::add(b.info));
    CHECK(static_cast<A*>(o.get(a.info))->me == o.get(a.info));
}
""")

seed('C08-check-on-the-way', 'C08', [(OB, """            if (!info->copy_asgn) throw_exception::obj_mut_error(mtype, "copy_matching_from", "missing copy assign", *info);
        }
    }
""", """            // (checked below)
        }
    }
"""), (OB, """        auto err = info.copy_asgn(&info,
            m_mixin_data[own_index].mixin,
            o.m_mixin_data[src_index].mixin
        );
""", """        if (!info.copy_asgn) throw_exception::obj_mut_error(mtype, "copy_matching_from", "missing copy assign", info);
        auto err = info.copy_asgn(&info,
            m_mixin_data[own_index].mixin,
            o.m_mixin_data[src_index].mixin
        );
""")],
 'copy_matching_from where a mixin which cannot be assigned comes after one which can',
 'the refused copy has changed the mixins before the one which cannot be assigned',
 """
struct B { B() = default; B& operator=(const B&) = delete; B(const B&) = default; int x = 0; };
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d); mixin<B> b("b", &d);
    auto& t = get(d, {&a, &b});
    dx::object o(t), p(t);
    *static_cast<int*>(o.get(a.info)) = 1; *static_cast<int*>(p.get(a.info)) = 2;
    THROWS(dx::object_error, o.copy_matching_from(p));
    CHECK(*static_cast<int*>(o.get(a.info)) == 1);
}
""")

seed('C09-assign-to-empty', 'C09', [(OB, """    if (m_allocator == o.m_allocator) {
        if (m_sealed)""", """    if (m_allocator == o.m_allocator || (empty() && !m_sealed)) {
        if (m_sealed)""")],
 'move assignment to an empty object with another allocator',
 'the buffers of the source are taken over and later given back to the allocator of the target',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    counting c, e;
    dx::object o(d, dx::allocator(&c)), p(get(d, {&a}), dx::allocator(&e));
    THROWS(dx::object_error, o = std::move(p));
    CHECK(p.num_mixins() == 1);
}
""")

seed('C11-settled-size', 'C11', [(D, """            if (last_result == nt_mixins) {
                // rules changed nothing""", """            if (last_result.size() == nt_mixins.size()) {
                // rules changed nothing""")],
 'a rule puts a mixin in the place of another, and a rule with a lesser priority reacts to it',
 'a pass which keeps the number of mixins is taken for one which changes nothing: the rule before is not applied to the new mixin',
 """
static dx::mixin_info *A, *B, *C, *X;
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d), c("c", &d), x("x", &d);
    A = &a.info; B = &b.info; C = &c.info; X = &x.info;
    dx::mutation_rule_info first{dnmx_make_sv_lit("1"), [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t {
        auto m = dx::type_mutation::from_c_handle(h); if (m->has(*B)) m->add_if_lacking(*C); return 0; }, 0, 0};
    dx::mutation_rule_info second{dnmx_make_sv_lit("2"), [](dnmx_type_mutation_handle h, uintptr_t) -> dnmx_error_return_t {
        auto m = dx::type_mutation::from_c_handle(h); if (m->remove(*A)) m->add_if_lacking(*B); return 0; }, 0, 1};
    d.add_mutation_rule(first); d.add_mutation_rule(second);
    CHECK(is(get(d, {&x, &a}), {&x, &b, &c}));
}
""")

seed('C10-less-not-equal', 'C10', [(OB, """            if (info.compare(&info, own_mixin, other_mixin)) return false;
""", """            if (info.compare(&info, own_mixin, other_mixin) < 0) return false;
""")],
 'objects with a mixin which has a comparison function only, where the left one is the greater',
 'an object equals a lesser one, but not the other way round',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a"); a.info.equals = nullptr;
    a.info.compare = [](const dnmx_mixin_info*, const void* x, const void* y) noexcept -> int { return *static_cast<const int*>(x) - *static_cast<const int*>(y); };
    a.register_in(d);
    dx::object o(get(d, {&a})), p(get(d, {&a}));
    *static_cast<int*>(o.get(a.info)) = 2; *static_cast<int*>(p.get(a.info)) = 1;
    CHECK(!p.equals(o)); CHECK(!o.equals(p));
}
""")

seed('C10-comparable-first', 'C10', [(T, """    return itlib::qall_of(mixins, [](const mixin_info* m) { return m->equals || m->compare; });
""", """    bool by_equals = itlib::qall_of(mixins, [](const mixin_info* m) { return !!m->equals; });
    return by_equals || comparable();
""")],
 'a type with one mixin which has only equals and one which has only compare',
 'the type says its objects cannot be compared for equality though they can',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a"), b("b"); a.info.equals = nullptr; b.info.compare = nullptr;
    a.info.compare = [](const dnmx_mixin_info*, const void*, const void*) noexcept -> int { return 0; };
    b.info.equals = [](const dnmx_mixin_info*, const void*, const void*) noexcept -> bool { return true; };
    a.register_in(d); b.register_in(d);
    auto& t = get(d, {&a, &b});
    dx::object o(t), p(t);
    CHECK(o.equals(p)); CHECK(t.equality_comparable());
}
""")

seed('C16-cmp-zero', 'C16', [('code/dnmx/bits/sv.h', """    if (alen == blen) {
        return memcmp(a.begin, b.begin, alen);
    }
""", """    if (alen == blen) {
        return strncmp(a.begin, b.begin, alen);
    }
""")],
 'two views of equal length which differ only after a zero byte',
 'views which differ after a zero byte compare equal',
 """
#include <dnmx/bits/sv.h>
int main() {
    auto a = dnmx_make_sv_len("a\\0b", 3), b = dnmx_make_sv_len("a\\0c", 3);
    CHECK(dnmx_sv_cmp(a, b) < 0); CHECK(!dnmx_sv_eq(a, b));
}
""")

seed('C17-features-span-once', 'C17', [('code/dynamix/mixin_info_data.hpp', """        m_data.feature_payloads.push_back({&info, stored, bid, priority});
        m_data.info.set_features(m_data.feature_payloads);
""", """        const bool moved = m_data.feature_payloads.size() == m_data.feature_payloads.capacity();
        m_data.feature_payloads.push_back({&info, stored, bid, priority});
        if (moved) m_data.info.set_features(m_data.feature_payloads);
""")],
 'a builder adds three features: the list has room for the third',
 'features added while the list has room are not in the info',
 """
int main() {
    dx::domain d("d");
    dx::util::feature_info_data f[6];
    static const char* names[] = {"0", "1", "2", "3", "4", "5"};
    int pl = 0;
    mixin<int> a("a");
    for (int i = 0; i < 6; ++i) {
        dx::util::feature_info_data_builder(f[i], names[i]);
        a.b.implements_by(f[i].info, pl);
        CHECK(a.info.features_span().size() == size_t(i + 1));
    }
}
""")

seed('C12-gc-keeps-neighbour', 'C12', [(D, """            it = types.erase(it);
        }
    }
};
""", """            it = types.erase(it);
            if (it != types.end()) ++it; // go on with the next one
        }
    }
};
""")],
 'two types without objects which are neighbours in the order of the registry',
 'the type after a collected one stays',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d), c("c", &d);
    get(d, {&a}); get(d, {&b}); get(d, {&c});
    d.garbage_collect_types();
    CHECK(d.num_types() == 0 && d.num_type_queries() == 0);
}
""")

seed('C13-dedup-first', 'C13', [(TM, """        assert(info);

        for (auto j = i + 1; j != mixins.end(); ++j) {
            if (info == *j) {
                // duplicate
                // remove the earlier
                info = nullptr;
            }
        }
    }
""", """        if (!info) continue; // removed already

        for (auto j = i + 1; j != mixins.end(); ++j) {
            if (info == *j) {
                // duplicate
                *j = nullptr;
            }
        }
    }
""")],
 'a mixin twice in a mutation with others in between',
 'the first occurrence is kept instead of the last, so the order is wrong',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    dx::type_mutation m(d);
    m.add(a); m.add(b); m.add(a);
    m.dedup();
    CHECK(m.mixins.size() == 2 && m.mixins[0] == &b && m.mixins[1] == &a);
}
""")

seed('C14-reset-null-sealed', 'C14', [('code/dynamix/object-c.cpp', """        if (ht) {
            self->reset_type(*type::from_c_handle(ht));
        }
        else {
            self->clear();
        }
    }
    catch (...) {
""", """        if (!ht) {
            dnmx_object_clear(ho);
            return dnmx_result_success;
        }
        self->reset_type(*type::from_c_handle(ht));
    }
    catch (...) {
""")],
 'dnmx_object_reset_type with no type on a sealed object',
 'success is returned though the object was not cleared',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    dx::object o(get(d, {&a}));
    o.seal();
    CHECK(dnmx_object_reset_type(o.to_c_hanlde(), nullptr) != 0);
    CHECK(o.num_mixins() == 1);
}
""")

seed('C14-type-mutation-leak', 'C14', [('code/dynamix/domain-c.cpp', """        std::unique_ptr<type_mutation> pmut(type_mutation::from_c_handle(*hmut));
        *hmut = nullptr;
        return &self->get_type(std::move(*pmut));
""", """        std::unique_ptr<type_mutation> pmut(type_mutation::from_c_handle(*hmut));
        auto& ret = self->get_type(std::move(*pmut));
        *hmut = nullptr;
        return &ret;
""")],
 'dnmx_get_type fails',
 'the handle of a mutation which is destroyed already is left with the caller',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    auto h = dnmx_create_type_mutation_empty(d.to_c_hanlde());
    dnmx_type_mutation_add(h, &a); dnmx_type_mutation_add(h, &a);
    CHECK(!dnmx_get_type(d.to_c_hanlde(), &h));
    CHECK(!h);
}
""")

seed('C02-count-mixins', 'C02', [(D, """                for (auto& feature : mixin->features_span()) {
                    ++m_num_reachable_pls[feature.info->iid()];
                    ++m_num_total_pls;
                }
""", """                for (auto& feature : mixin->features_span()) {
                    if (feature.info->allow_clashes || !m_num_reachable_pls[feature.info->iid()] || mixin != m_mut.mixins.back())
                        ++m_num_reachable_pls[feature.info->iid()];
                    ++m_num_total_pls;
                }
""")],
 'a feature which forbids clashes, given by the last mixin and one before, along with a further feature whose payloads come next in the table',
 'the payloads of two features share a place in the table',
 """
int main() {
    dx::domain d("d");
    dx::util::feature_info_data f, g;
    dx::util::feature_info_data_builder(f, "f"); dx::util::feature_info_data_builder(g, "g");
    f.info.allow_clashes = false; g.info.allow_clashes = true;
    int p1 = 1, p2 = 2, q = 3;
    mixin<int> a("a"), b("b");
    a.b.implements_by(f.info, p1, dx::util::builder_literals::operator""_bid(1)).implements_by(g.info, q);
    b.b.implements_by(f.info, p2);
    a.register_in(d); b.register_in(d);
    auto& t = get(d, {&a, &b});
    auto e = t.ftable_at(f.info.id); auto h = t.ftable_at(g.info.id);
    CHECK(e.size() == 2 && h.size() == 1);
    CHECK(h.begin->payload == &q); CHECK(e.begin->payload == &p1); CHECK(e.begin[1].payload == &p2);
}
""")

seed('C18-substitute-not-found', 'C18', [('v1compat/code/dynamix/v1compat/common_mutation_rules.hpp', """        if (mut.has<SourceMixin>()) {
            mut.remove<SourceMixin>();
            mut.add_if_lacking<TargetMixin>();
        }
""", """        if (mut.has<SourceMixin>() && !mut.has<TargetMixin>()) {
            mut.remove<SourceMixin>();
            mut.add<TargetMixin>();
        }
""")],
 'a mutation with both the source and the target of a substitution',
 'the source stays',
 V1H + """
int main() {
    auto r = std::make_shared<v1::substitute_mixin<a, b>>();
    dx::type_mutation m(v1::domain::instance());
    m.add<a>(); m.add<b>();
    static_cast<v1::mutation_rule&>(*r).apply_to(m);
    CHECK(m.mixins.size() == 1); CHECK(m.has<b>());
}
""", v1=True)

seed('C19-or-last', 'C19', [('v1compat/code/dynamix/v1compat/combinators.hpp', """        _result = _result || bool(r);

        return !_result; // stop at the first true
""", """        _result = bool(r);

        return !_result; // stop at the first true
""")],
 'a boolean_or used for a second call without a reset, the first having given true',
 'the combinator forgets the result of the first call',
 """
#include <dynamix/v1compat/combinators.hpp>
int main() {
    dynamix::v1compat::combinators::boolean_or<> c;
    c.set_num_results(1); c.add_result(true);
    c.set_num_results(1); c.add_result(false);
    CHECK(c.result());
    c.reset(); CHECK(!c.result());
}
""", v1=True)

seed('C21-dump-id-after-gap', 'C21', [('code/dynamix/dbg_dmp.cpp', """            dbg_dmp(out, mi, flags);
            out << '\\n';

            next_slot = mi.iid() + 1;
""", """            dbg_dmp(out, mi, flags);
            out << '\\n';

            ++next_slot;
""")],
 'two gaps in the ids of mixins, or a gap with two mixins after it',
 'the dump tells of empty slots which do not exist',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d), c("c", &d);
    a.unregister_from(d);
    std::ostringstream s;
    dx::util::dbg_dmp(s, d, dnmx_dom_dmp_all);
    size_t n = 0;
    for (size_t p = 0; (p = s.str().find("empty slots", p)) != std::string::npos; ++p) ++n;
    CHECK(n == 1);
}
""")

seed('C21-error-other-domain', 'C21', [('code/dynamix/throw_exception.cpp', """    e<domain_error>(dom) << "register mixin " << info << " which has a domain = " << *domain::from_c_handle(info.dom) << do_throw;
""", """    e<domain_error>(dom) << "register mixin " << info << " which has a domain = " << dom << do_throw;
""")],
 'registering a mixin of another domain',
 'the message names the wrong domain as the owner',
 """
int main() {
    dx::domain d("this"), other("other");
    mixin<int> a("a", &other);
    try { d.register_mixin(a.info); CHECK(false); } catch (const dx::domain_error& e) { CHECK(std::string(e.what()).find("other") != std::string::npos); }
}
""")

seed('C23-class-slot-kept', 'C23', [(D, """            if (rtc == &tc) {
                rtc = nullptr;
                return;
            }
""", """            if (rtc == &tc) {
                if (&rtc == &reg->sparse_type_classes.back()) rtc = nullptr;
                return;
            }
""")],
 'a plugin with a type class is unloaded while type classes registered later are there',
 'the domain keeps a type class whose code is gone',
 """
static bool yes(dnmx_type_handle) noexcept { return true; }
int main() {
    dx::domain d("d");
    dx::type_class b{dnmx_make_sv_lit("y"), yes};
    {
        dx::type_class a{dnmx_make_sv_lit("x"), yes};
        d.register_type_class(a); d.register_type_class(b);
        d.unregister_type_class(a);
    }
    int n = 0;
    dx::domain_traverse(d).traverse_type_classes([&](const dx::type_class&) { ++n; });
    CHECK(n == 1);
}
""")

seed('C20-query-no-generation', 'C20', [(D, """                if (reg->generation == generation) {
                    reg->type_queries[std::move(original_query)] = found;
                    return *found;
                }
""", """                // (types are only dropped explicitly)
                reg->type_queries[std::move(original_query)] = found;
                return *found;
""")],
 'a rule is added by another thread between the application of the rules and the storing of the query',
 'the answer found without the new rule is stored and given from then on',
 """
#include <thread>
#include <atomic>
// the second request applies the rules, and in the last of them another thread is let in which adds a rule
static dx::domain* D; static dx::mixin_info* B; static std::atomic<int> go{0};
static dnmx_error_return_t slow(dnmx_type_mutation_handle, uintptr_t) { if (go == 1) { go = 2; for (int i = 0; i < 50; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return 0; }
static dnmx_error_return_t addb(dnmx_type_mutation_handle h, uintptr_t) { dx::type_mutation::from_c_handle(h)->add_if_lacking(*B); return 0; }
int main() {
    for (int round = 0; round < 40; ++round) {
        dx::domain d("d"); D = &d; go = 0;
        mixin<int> a("a", &d), b("b", &d), c("c", &d); B = &b.info;
        c.info.dependency = true;
        dx::mutation_rule_info r1{dnmx_make_sv_lit("1"), slow, 0, 0}, r2{dnmx_make_sv_lit("2"), addb, 0, 1};
        d.add_mutation_rule(r1);
        get(d, {&a});
        go = 1;
        std::thread t([&] { while (go != 2) ; d.add_mutation_rule(r2); });
        get(d, {&c, &a}); // finds the type {a}
        t.join();
        CHECK(is(get(d, {&c, &a}), {&a, &b}));
    }
}
""")
