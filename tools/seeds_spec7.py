from seeds_spec1 import D, OM, OB, TM
from seeds_spec2 import V1H, V1R
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
T = 'code/dynamix/type.cpp'

seed('C20-gc-two-looks', 'C20', [(D, """        for (auto it = types.begin(); it != types.end(); ) {
            auto& t = *it;
            if (t->num_objects() > 0) {
                // objects of this type still exist
                ++it;
                continue;
            }

            // erase queries which lead to this type
            for (auto iq = queries.begin(); iq != queries.end(); ) {
                if (iq->second == it->get()) {
                    iq = queries.erase(iq);
                }
                else {
                    ++iq;
                }
            }
            it = types.erase(it);
        }
""", """        // erase queries which lead to types without objects
        for (auto iq = queries.begin(); iq != queries.end(); ) {
            if (iq->second != &m_empty_type && iq->second->num_objects() == 0) {
                iq = queries.erase(iq);
            }
            else {
                ++iq;
            }
        }
        // ... and these types
        for (auto it = types.begin(); it != types.end(); ) {
            if ((*it)->num_objects() > 0) ++it;
            else it = types.erase(it);
        }
""")],
 'the last object of a type is destroyed by another thread while garbage is collected, after the queries were looked at and before the types are',
 'a stored query leads to a destroyed type',
 """
#include <memory>
// an object is destroyed while the collection gives memory back
struct hook : counting {
    std::unique_ptr<dx::object> victim; bool armed = false;
    void do_deallocate(void* p, std::size_t n, std::size_t a) override {
        counting::do_deallocate(p, n, a);
        if (armed && victim) { auto v = std::move(victim); v.reset(); }
    }
};
int main() {
    for (int which = 0; which < 2; ++which) {
        hook h;
        dx::domain d("d", {}, 0, nullptr, &h);
        mixin<int> a("a", &d), b("b", &d);
        auto& ta = get(d, {&a}); auto& tb = get(d, {&b});
        h.victim.reset(new dx::object(which ? ta : tb));
        h.armed = true;
        d.garbage_collect_types();
        h.armed = false;
        std::vector<const dx::type*> ts;
        dx::domain_traverse tr(d);
        tr.traverse_types([&](const dx::type& t) { ts.push_back(&t); });
        tr.traverse_type_queries([&](itlib::span<const dx::mixin_info* const>, const dx::type& t) {
            bool found = false;
            for (auto x : ts) found |= x == &t;
            CHECK(found);
        });
    }
}
""")

seed('C20-dom-after-unlock', 'C20', [(D, """        auto reg = m_element_registry.unique_lock();

        // register mixin's features
""", """        {
        auto reg = m_element_registry.unique_lock();

        // register mixin's features
"""), (D, """        basic_register_l(info, reg->sparse_mixins, !m_domain.m_settings.allow_duplicate_mixin_names);
        info.dom = &m_domain;
""", """        basic_register_l(info, reg->sparse_mixins, !m_domain.m_settings.allow_duplicate_mixin_names);
        }
        info.dom = &m_domain; // our own: nothing to lock
""")],
 'another thread finds a mixin by name and requests a type of it just when it was registered',
 'its request is refused as if the mixin were of no domain',
 """
#include <thread>
#include <atomic>
int main() {
    dx::domain d("d");
    for (int i = 0; i < 8000; ++i) {
        mixin<int> m("m");
        std::atomic_int up{0};
        std::atomic_bool bad{false};
        std::vector<std::thread> ts;
        for (int k = 0; k < 2; ++k) ts.emplace_back([&] {
            ++up;
            const dx::mixin_info* i;
            while (!(i = d.get_mixin_info("m"))) std::this_thread::sleep_for(std::chrono::microseconds(1));
            if (!i->dom) bad = true;
        });
        while (up != 2) ;
        m.register_in(d);
        for (auto& t : ts) t.join();
        CHECK(!bad);
        m.unregister_from(d);
    }
}
""", san='', flags='-O1')

seed('C20-rule-shared', 'C20', [(D, """        auto reg = m_type_registry.unique_lock();

        auto& rc = reg->mutation_rules[&info];
        ++rc;
        if (rc != 1) return; // not first-time registering
""", """        {
            // most rules come again and again with their plugins
            auto shared = m_type_registry.shared_lock();
            auto f = shared->mutation_rules.find(&info);
            if (f != shared->mutation_rules.end()) {
                ++const_cast<uint32_t&>(f->second);
                return;
            }
        }

        auto reg = m_type_registry.unique_lock();

        auto& rc = reg->mutation_rules[&info];
        ++rc;
        if (rc != 1) return; // not first-time registering
""")],
 'two threads add again a rule which was added before',
 'one of the references is lost',
 """
#include <thread>
#include <atomic>
int main() {
    dx::mutation_rule_info rule = {dnmx_make_sv_lit("r"), [](dnmx_type_mutation_handle, uintptr_t) -> dnmx_error_return_t { return 0; }, 0, 0};
    for (int i = 0; i < 200; ++i) {
        dx::domain d("d");
        d.add_mutation_rule(rule);
        std::atomic_int up{0};
        std::vector<std::thread> ts;
        for (int k = 0; k < 4; ++k) ts.emplace_back([&] { ++up; while (up != 4) ; for (int j = 0; j < 2000; ++j) d.add_mutation_rule(rule); });
        for (auto& t : ts) t.join();
        dx::domain_traverse tr(d);
        uint32_t n = 0;
        tr.traverse_mutation_rules([&](const dx::mutation_rule_info&, uint32_t c) { n = c; });
        CHECK(n == 8001);
    }
}
""", san='', flags='-O1')
