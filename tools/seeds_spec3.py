from seeds_spec1 import D, OM, OB, TM
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
T = 'code/dynamix/type.cpp'
MU = 'code/dynamix/mutate.hpp'
MTO = 'code/dynamix/mutate_to_ops.hpp'

seed('C15-gradual-flag-late', 'C15', [(MU, """        m_applied = true;
        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));
        m_obj.reset_type(type);
""", """        auto& type = m_obj.get_domain().get_type(std::move(m_type_mut));
        m_obj.reset_type(type);
        m_applied = true;
""")],
 'apply() of a gradual mutation fails, the error is caught while the mutation is alive, and the mutation is then destroyed',
 'a failed gradual mutation is applied a second time by its destructor, with the mixin list already moved out of it: the object loses its mixins',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    b.info.init = [](const dnmx_mixin_info*, void*) -> dnmx_error_return_t { return 1; };
    dx::object o(get(d, {&a}));
    try {
        auto m = dx::mutate(o);
        m.add(b);
        try { m.apply(); CHECK(false); } catch (const dx::object_error&) {}
    } catch (...) { CHECK(false); }
    CHECK(o.num_mixins() == 1 && o.has(a));
}
""")

seed('C15-construct-name-cached', 'C15', [(MTO, """        this->affected_info = obj.get_domain().get_mixin_info(name);
        return this;
""", """        if (!this->affected_info) this->affected_info = obj.get_domain().get_mixin_info(name);
        return this;
""")],
 'one operation constructing by name used for two objects of different domains (or after the name got another mixin)',
 'the mixin is looked up only at the first use of the operation: later the override is dropped or goes to another mixin',
 """
int main() {
    dx::domain d("d"), e("e");
    mixin<int> pad("pad", &e), a("a", &d), a2("a", &e);
    int ran = 0;
    auto op = dx::construct("a", [&](dx::init_new_args args) { ++ran; new (args.mixin_buf) int(7); });
    dx::object o(d), p(e);
    dx::mutate_to(o, get(d, {&a}), op);
    CHECK(ran == 1 && *static_cast<int*>(o.get("a")) == 7);
    dx::mutate_to(p, get(e, {&pad, &a2}), op);
    CHECK(ran == 2 && *static_cast<int*>(p.get("a")) == 7);
}
""")

seed('C07-nonstd-throw', 'C07', [(OM, """    catch (...) {
        rollback();
        throw; // forward the exception to the outside world
    }
""", """    catch (std::exception&) {
        rollback();
        throw; // forward the exception to the outside world
    }
""")],
 'the default constructor of a new mixin throws something which is not a std::exception',
 'the mixins constructed before are never destroyed and the buffers leak',
 """
static int live;
struct A { A() { ++live; } A(const A&) { ++live; } ~A() { --live; } };
int main() {
    dx::domain d("d");
    mixin<A> a("a", &d); mixin<int> b("b");
    b.info.init = [](const dnmx_mixin_info*, void*) -> dnmx_error_return_t { throw 5; };
    b.register_in(d);
    counting c;
    dx::object o(d, dx::allocator(&c));
    try { dx::mutate_to(o, get(d, {&a, &b}), dx::construct(a.info, [](dx::init_new_args args) { new (args.mixin_buf) A; })); CHECK(false); } catch (int) {}
    CHECK(live == 0 && c.blocks == 0 && o.empty());
    CHECK(get(d, {&a, &b}).num_objects() == 0);
}
""")

seed('C01-query-by-id', 'C01', [(D, """    if (as != bs) return as < bs;
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
""", """    if (as != bs) return as < bs;
    // ids are dense, so they give a better order than addresses
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](const mixin_info* x, const mixin_info* y) {
        return x->iid() < y->iid();
    });
""")],
 'a request with a mixin of another domain whose id is the one of an own mixin, whose request is stored',
 'the foreign mixin is taken for the own one with the same id: the request succeeds',
 """
int main() {
    dx::domain d("d"), e("e");
    mixin<int> a("a", &d), b("b", &e);
    THROWS(dx::domain_error, get(d, {&b}));
    get(d, {&a});
    THROWS(dx::domain_error, get(d, {&b}));
}
""")

seed('C04-dom-kept', 'C04', [(D, """        // invalidate info
        info.id = invalid_mixin_id;
        info.dom = nullptr;
""", """        // invalidate info
        info.id = invalid_mixin_id;
""")],
 'a mixin unregistered from one domain is registered in another',
 'an unregistered info stays bound to its first domain',
 """
int main() {
    dx::domain d("d"), e("e");
    mixin<int> a("a");
    d.register_mixin(a.info);
    d.unregister_mixin(a.info);
    CHECK(!a.info.dom);
    e.register_mixin(a.info);
    CHECK(a.info.dom == e.to_c_hanlde() && e.get_mixin_info("a") == &a);
    e.unregister_mixin(a.info);
}
""")

seed('C06-padding-pointer', 'C06', [(D, """            if (padding < sizeof_ptr) padding += ma;
""", """            if (padding == 0) padding += ma;
""")],
 'a mixin after one whose size leaves a gap smaller than a pointer before the next aligned offset',
 'the object pointer in front of a mixin overlaps the end of the mixin before it',
 """
struct odd { char c[13]; };
int main() {
    dx::domain d("d");
    mixin<odd> a("a", &d), b("b", &d);
    dx::object o(get(d, {&a, &b}));
    auto p = static_cast<char*>(o.get("a")), q = static_cast<char*>(o.get("b"));
    CHECK(q - p >= long(sizeof(odd) + sizeof(void*)));
}
""")

seed('C08-copy-from-index', 'C08', [(OB, """            auto source = o.m_mixin_data[args.target_index].mixin;
            auto err = args.info.copy_asgn(&args.info, args.mixin_buf, source);
""", """            auto source = o.m_mixin_data[get_type().index_of(args.info.id)].mixin;
            auto err = args.info.copy_asgn(&args.info, args.mixin_buf, source);
""")],
 'copy_from an object which has a common mixin at another index',
 'the common mixin is assigned from the mixin which is at its old index in the source',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d);
    dx::object o(get(d, {&b})), p(get(d, {&a, &b}));
    *static_cast<int*>(p.get("a")) = 1; *static_cast<int*>(p.get("b")) = 2;
    o.copy_from(p);
    CHECK(*static_cast<int*>(o.get("a")) == 1);
    CHECK(*static_cast<int*>(o.get("b")) == 2);
}
""")

seed('C09-move-matching-init', 'C09', [(OB, """            if (info.destroy) info.destroy(&info, m_mixin_data[own_index].mixin);
            assert(info.move_init); // should be covered above
""", """            assert(info.move_init); // should be covered above
""")],
 'move_matching_from with the fallback to move construction, of a mixin without move assignment',
 'the old value of the mixin is overwritten and never destroyed',
 """
static int live;
struct A { A() { ++live; } A(A&&) noexcept { ++live; } A& operator=(A&&) = delete; ~A() { --live; } };
int main() {
    dx::domain d("d");
    mixin<A> a("a", &d);
    {
        dx::object o(get(d, {&a})), p(get(d, {&a}));
        o.move_matching_from(p, true);
        CHECK(live == 2);
    }
    CHECK(live == 0);
}
""")

seed('C10-compare-prefix', 'C10', [(T, """            assert(o != oend); // sanity: how is this the same type?
            return -1;
        }

        if (o == oend) return 1;
""", """            assert(o != oend); // sanity: how is this the same type?
            return -1;
        }

        if (o == oend) return mixins.size() > other.mixins.size() + 1 ? -1 : 1;
""")],
 'two types, one beginning with all the mixins of the other and having at least two more',
 'the order of such types contradicts itself: each is less than the other',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d), c("c", &d);
    auto& s = get(d, {&a}); auto& l = get(d, {&a, &b, &c});
    CHECK(s.compare(l) < 0);
    CHECK(l.compare(s) > 0);
}
""")

seed('C02-sparse-ftable', 'C02', [(T, """    auto mixin_index = index_of(mixin.id);
    auto f = find_implementer(fe, mixin_index);
    if (!f) return {}; // type does not implement feature for provided mixin
    auto fbid = f->data->bid;
    while (f != fe.end && f->data->bid == fbid) ++f; // find the end of the current bidder set
""", """    auto mixin_index = index_of(mixin.id);
    auto f = find_implementer(fe, mixin_index);
    if (!f) return {}; // type does not implement feature for provided mixin
    if (f <= fe.top_bid_back) f = fe.top_bid_back + 1; // the end of the current bidder set is known
    else ++f;
""")],
 'three or more sets of bidders, and the next set asked for a mixin which is not the last of a set below the top',
 'the next bidder set of a mixin is then the rest of its own set',
 """
int main() {
    dx::domain d("d");
    dx::common_feature_info f(dnmx_make_sv_lit("f"), true, nullptr);
    mixin<int> a("a"), b("b"), c("c"), e("e");
    auto impl = [&](mixin<int>& m, int bid) {
        dx::feature_for_mixin x{}; x.info = &f; x.payload = nullptr; x.bid = bid; x.priority = 0;
        m.feature_payloads.push_back(x);
        m.info.set_features(m.feature_payloads);
        m.register_in(d);
    };
    impl(a, 2); impl(b, 1); impl(c, 1); impl(e, 0);
    auto& t = get(d, {&a, &b, &c, &e});
    CHECK(t.find_next_bidder_set(f, a.info).size() == 2);
    CHECK(t.find_next_bidder_set(f, b.info).size() == 1);
    CHECK(t.find_next_bidder_set(f, c.info).size() == 1 && t.find_next_bidder_set(f, c.info)[0].mixin_index == 3);
    CHECK(t.find_next_bidder_set(f, e.info).empty());
}
""")

seed('C13-to-back-last', 'C13', [(TM, """    auto f = itlib::qfind_if(mixins, by_name);
    if (f == mixins.end()) {
        throw_exception::type_mut_error(*this, "to_back", name);
    }
    do_to_back(f, mixins);
    return *mixins.back();
""", """    auto f = itlib::qfind_if(mixins, by_name);
    if (f == mixins.end()) {
        throw_exception::type_mut_error(*this, "to_back", name);
    }
    std::swap(*f, mixins.back()); // no need to shift the others
    return *mixins.back();
""")],
 'to_back by name of a mixin with at least two others after it',
 'the order of the other mixins of the mutation changes',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d), b("b", &d), c("c", &d);
    dx::type_mutation m(get(d, {&a, &b, &c}));
    m.to_back("a");
    CHECK(m.mixins.size() == 3 && m.mixins[0] == &b && m.mixins[1] == &c && m.mixins[2] == &a);
    m.to_back("c");
    CHECK(m.mixins[0] == &b && m.mixins[1] == &a && m.mixins[2] == &c);
}
""")

seed('C12-empty-query-kept', 'C12', [(D, """                else if (itlib::pfind(iq->first, &info)) {
                    // query references mixin
                    iq = queries.erase(iq);
                }
""", """                else if (iq->second->num_mixins() && itlib::pfind(iq->first, &info)) {
                    // query references mixin
                    iq = queries.erase(iq);
                }
""")],
 'a stored query for a mixin which a rule takes away, so that it leads to the empty type, and the mixin is unregistered',
 'the query stays: a request with the unregistered mixin is answered from it instead of being refused',
 """
static dx::error_return_t no_a(dnmx_type_mutation_handle m, uintptr_t) {
    dx::type_mutation::from_c_handle(m)->remove("a");
    return dx::result_success;
}
int main() {
    dx::domain d("d");
    mixin<int> a("a", &d);
    dx::mutation_rule_info r = {dnmx_make_sv_lit("no a"), no_a, 0, 0};
    d.add_mutation_rule(r);
    CHECK(get(d, {&a}).num_mixins() == 0 && d.num_type_queries() == 1);
    d.unregister_mixin(a.info);
    CHECK(d.num_type_queries() == 0);
}
""")

seed('C21-traverse-one-ref', 'C21', [(D, """    for (auto& mr : m_impl->tr->mutation_rules) {
        func(*mr.first, mr.second);
    }
""", """    for (auto& mr : m_impl->tr->mutation_rules) {
        func(*mr.first, mr.second > 2 ? 2 : mr.second);
    }
""")],
 'a rule which was added three times',
 'the traversal (and so the dump) reports a wrong reference count',
 """
static dx::error_return_t none(dnmx_type_mutation_handle, uintptr_t) { return dx::result_success; }
int main() {
    dx::domain d("d");
    dx::mutation_rule_info r = {dnmx_make_sv_lit("r"), none, 0, 0};
    for (int i = 0; i < 3; ++i) d.add_mutation_rule(r);
    uint32_t n = 0;
    { dx::domain_traverse t(d); t.traverse_mutation_rules([&](const dx::mutation_rule_info&, uint32_t c) { n = c; }); }
    CHECK(n == 3);
}
""")

seed('C11-strip-after', 'C11', [(D, """        // first erase all deps from mixins
        itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });

        last_result = nt_mixins;
""", """        // first erase all deps from mixins
        // (without rules there is nothing which could have added them)
        if (!rules.empty()) itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });

        last_result = nt_mixins;
""")],
 'a request with a dependency mixin in a domain which has no rules',
 'dependency mixins are kept in the type though no rule adds them',
 """
int main() {
    dx::domain d("d");
    mixin<int> a("a"), b("b", &d);
    a.info.dependency = true;
    a.register_in(d);
    CHECK(is(get(d, {&a, &b}), {&b}));
    CHECK(get(d, {&a}).num_mixins() == 0);
}
""")

seed('C05-external-kept', 'C05', [(OM, """            if (m_old_mixin_data && m_old_type->has(info.id)) {
                // we have that external mixin, so just redirect buffer
                data = m_old_mixin_data[m_old_type->sparse_mixin_indices[info.iid()]];
            }
""", """            if (m_old_mixin_data && m_old_type->has(info.id)) {
                // we have that external mixin, so just redirect buffer
                data = m_old_mixin_data[ti < m_old_type->num_mixins() && m_old_type->mixins[ti]->external() ? ti : m_old_type->sparse_mixin_indices[info.iid()]];
            }
""")],
 'two external mixins which change places in a mutation',
 'each gets the buffer of the other',
 """
struct big { int x = 0; char c[64]; };
int main() {
    dx::domain d("d");
    mixin<big> a("a"), b("b");
    a.info.force_external = b.info.force_external = true;
    a.register_in(d); b.register_in(d);
    dx::object o(get(d, {&a, &b}));
    static_cast<big*>(o.get("a"))->x = 1; static_cast<big*>(o.get("b"))->x = 2;
    auto pa = o.get("a");
    o.reset_type(get(d, {&b, &a}));
    CHECK(o.get("a") == pa && static_cast<big*>(o.get("a"))->x == 1 && static_cast<big*>(o.get("b"))->x == 2);
}
""")

seed('C23-one-rule', 'C23', [('code/dynamix/mixin_info_data.cpp', """    dom.unregister_mixin(info);
    for (auto* r : mutation_rule_infos) {
        dom.remove_mutation_rule(*r);
    }
}
""", """    dom.unregister_mixin(info);
    for (size_t i = 0; i < mutation_rule_infos.size(); ++i) {
        if (i && mutation_rule_infos[i]->apply == mutation_rule_infos[i - 1]->apply) continue; // shared with the previous one
        dom.remove_mutation_rule(*mutation_rule_infos[i]);
    }
}
""")],
 'a module whose mixin has two rules with the same function, unloaded before more types are requested',
 'a rule of an unloaded module stays in the domain and is called',
 """
static dx::error_return_t none(dnmx_type_mutation_handle, uintptr_t) { return dx::result_success; }
int main() {
    dx::domain d("d");
    {
        mixin<int> a("a");
        a.b.adds_mutation_rule(none, 1).adds_mutation_rule(none, 2).dependency(false);
        a.register_in(d);
        CHECK(d.num_mutation_rules() == 2);
        a.unregister_from(d);
    }
    CHECK(d.num_mutation_rules() == 0);
}
""")
