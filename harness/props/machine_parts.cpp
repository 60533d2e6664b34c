// Profiles of the stateful machine: which operations, settings and faults the histories of a property
// draw, and what makes a history count as non-trivial. Every history runs under every oracle of the
// machine, whichever property it is drawn for.
#include "../machine.hpp"

namespace {
using Counts = std::map<std::string, int>;
int has(const Counts& c, const char* k) { auto i = c.find(k); return i == c.end() ? 0 : i->second; }

struct Prof {
    const char* prop; const char* part; const char* what; // what makes it non-trivial
    uint64_t quick, thorough;
    std::function<void(w::Cfg&)> set;
    std::function<bool(const Counts&)> nontrivial;
};

void no_objects(w::Cfg& c) {
    c.w_create = c.w_destroy = c.w_clear = c.w_reset = c.w_mutate = c.w_mutate_to = c.w_gradual = c.w_piecewise = 0;
    c.w_copy = c.w_copy_from = c.w_copy_match = c.w_move_match = c.w_move_ctor = c.w_move_asgn = c.w_seal = c.w_compare = c.w_poke = 0;
}
void no_domain_edits(w::Cfg& c) {
    c.w_reg = c.w_unreg = c.w_regfeat = c.w_unregfeat = c.w_badreg = c.w_tc = c.w_foreign = c.w_traverse = 0;
    c.w_rule = 1; c.w_gettype = 3; c.w_gc = 1; c.w_cmptypes = 0;
}

const char* how = "random histories of operations over generated mixins, features, rules and settings, every step compared with a reference model; non-trivial: ";

std::vector<Prof> profiles() {
    std::vector<Prof> v;
    v.push_back({"C01", "types", "at least two types are created and one is requested again or changed by rules", 60000, 3000000, [](w::Cfg& c) {
        c.two_domains = c.odd_names = c.dup_names = c.default_alloc_dom = true; c.canon_pct = 45; c.w_gettype = 16; c.w_create = 2; c.w_foreign = 2; c.w_cmptypes = 2; c.max_objs = 2;
        c.w_mutate = c.w_mutate_to = c.w_reset = 1; c.c_pct = 25; c.max_mixins = 8; c.fault_pct = 10; c.avg_ops = 16;
    }, [](const Counts& c) { return has(c, "type created") >= 2 && (has(c, "known type requested") || has(c, "request changed by rules")); }});
    v.push_back({"C01", "canonical", "a canonical domain creates a type of 3 or more mixins with names sharing a prefix or priorities", 30000, 1500000, [](w::Cfg& c) {
        c.canon_pct = 100; c.odd_names = true; c.dup_names = true; c.min_mixins = 3; c.max_mixins = 9; c.max_feats = 1; c.missing_pct = 0; c.w_gettype = 20; no_objects(c); c.w_cmptypes = 2; c.fault_pct = 5;
    }, [](const Counts& c) { return has(c, "type of 3 or more mixins created") > 0; }});
    v.push_back({"C02", "features", "a type of 3 or more mixins is created in a domain with features", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; no_objects(c); c.max_feats = 4; c.min_mixins = 3; c.max_mixins = 9; c.max_rules = 1; c.missing_pct = 0; c.w_gettype = 20; c.w_regfeat = c.w_unregfeat = c.w_reg = c.w_unreg = 2; c.deep_pct = 60; c.fault_pct = 5; c.avg_ops = 12; c.odd_names = true;
    }, [](const Counts& c) { return has(c, "type of 3 or more mixins created") && has(c, "has features"); }});
    v.push_back({"C04", "registries", "a mixin or feature is unregistered and something registered later", 60000, 3000000, [](w::Cfg& c) {
        no_objects(c); c.two_domains = c.odd_names = c.dup_names = c.default_alloc_dom = true; c.start_registered = false; c.max_feats = 5; c.max_mixins = 8; c.max_rules = 1;
        c.w_reg = 10; c.w_unreg = 6; c.w_regfeat = 4; c.w_unregfeat = 4; c.w_badreg = 5; c.w_tc = 5; c.w_rule = 1; c.w_gettype = 4; c.w_gc = 1; c.w_cmptypes = 0; c.w_traverse = 0; c.deep_pct = 60; c.avg_ops = 25; c.c_pct = 30; c.fault_pct = 10;
    }, [](const Counts& c) { return has(c, "mixin unregistered") || has(c, "feature unregistered"); }});
    v.push_back({"C05", "lifetimes", "an object of two or more mixins is made and mutated, cleared or destroyed", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; no_domain_edits(c); c.w_create = 8; c.w_destroy = 4; c.w_clear = 3; c.max_mixins = 8; c.avg_ops = 16; c.two_domains = true; c.default_alloc_dom = true; c.fault_pct = 10; c.big_layout = true;
    }, [](const Counts& c) { return has(c, "object of 2 or more mixins made") && (has(c, "mutation") || has(c, "object cleared") || has(c, "object destroyed")); }});
    v.push_back({"C06", "mutation", "a mutation keeps some mixins and adds or removes others", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; no_domain_edits(c); c.w_create = 5; c.w_reset = c.w_mutate = c.w_mutate_to = 7; c.w_gradual = 4; c.w_piecewise = 4; c.w_clear = 2; c.w_copy = c.w_copy_from = c.w_copy_match = c.w_move_match = c.w_move_ctor = c.w_move_asgn = 1; c.w_poke = 3; c.max_mixins = 8; c.missing_pct = 3; c.fault_pct = 5; c.avg_ops = 16; c.odd_names = true;
    }, [](const Counts& c) { return has(c, "common mixins kept") > 0 || has(c, "mutation that removes all mixins") > 0; }});
    v.push_back({"C07", "faults", "at least one fault is injected into a running operation", 45000, 2500000, [](w::Cfg& c) {
        c.dup_names = true; no_domain_edits(c); c.fault_pct = 85; c.unwind_pct = 20; c.missing_pct = 10; c.max_mixins = 7; c.avg_ops = 10; c.w_piecewise = 5; c.w_gradual = 3; c.w_copy_from = 4; c.w_copy = 3; c.c_pct = 20; c.two_domains = false;
    }, [](const Counts& c) { return has(c, "fault injected") > 0 || has(c, "op during stack unwinding") > 1; }});
    v.push_back({"C08", "copies", "an object of two or more mixins is copied, assigned or matched", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; no_domain_edits(c); c.w_copy = 8; c.w_copy_from = 10; c.w_copy_match = 6; c.w_move_match = 6; c.w_poke = 6; c.w_create = 8; c.w_mutate = 3; c.w_mutate_to = c.w_reset = 2; c.w_gradual = c.w_piecewise = 0; c.w_seal = 1; c.missing_pct = 8; c.max_mixins = 6; c.fault_pct = 8; c.avg_ops = 16;
    }, [](const Counts& c) { return has(c, "copy of 2 or more mixins") || has(c, "copy_from with assigned and new mixins") || has(c, "matching copy with unmatched mixins"); }});
    v.push_back({"C09", "moves and seals", "a non-empty object is moved or a change of a sealed object refused", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; no_domain_edits(c); c.w_move_ctor = 6; c.w_move_asgn = 10; c.w_seal = 5; c.w_clear = 3; c.w_copy = 3; c.w_copy_from = 3; c.w_move_match = 1; c.w_create = 8; c.w_poke = 3; c.missing_pct = 3; c.max_mixins = 5; c.fault_pct = 5; c.avg_ops = 18; c.two_domains = true; c.max_objs = 6;
    }, [](const Counts& c) { return has(c, "move of 2 or more mixins") || has(c, "change of a sealed object refused") || has(c, "sealed object moved"); }});
    v.push_back({"C10", "comparisons", "objects of one non-empty type, or several types, are compared", 60000, 3000000, [](w::Cfg& c) {
        no_domain_edits(c); c.w_compare = 16; c.w_poke = 8; c.w_cmptypes = 3; c.w_copy = 5; c.w_create = 6; c.w_mutate = 3; c.w_copy_from = 3; c.w_tc = 2; c.missing_pct = 6; c.max_mixins = 5; c.fault_pct = 0; c.avg_ops = 20; c.two_domains = true; c.odd_names = true; c.dup_names = true; c.w_gradual = c.w_piecewise = 0; c.max_rules = 1; c.deep_pct = 40;
    }, [](const Counts& c) { return has(c, "compare objects of one type") || has(c, "types compared"); }});
    v.push_back({"C11", "rules", "rules change a request, fail or settle after being added or removed", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; no_objects(c); c.max_rules = 7; c.max_feats = 1; c.missing_pct = 0; c.min_mixins = 3; c.max_mixins = 7; c.w_rule = 8; c.w_gettype = 16; c.w_reg = c.w_unreg = 1; c.w_badreg = c.w_tc = 0; c.w_gc = 1; c.avg_ops = 20; c.c_pct = 20; c.canon_pct = 35; c.fault_pct = 8; c.deps = true;
    }, [](const Counts& c) { return has(c, "request changed by rules") || has(c, "failing or cyclic rules"); }});
    v.push_back({"C11", "rules and objects", "an object is mutated under rules", 20000, 1000000, [](w::Cfg& c) {
        c.dup_names = true; no_domain_edits(c); c.max_rules = 5; c.w_rule = 6; c.w_mutate = 8; c.w_create = 6; c.avg_ops = 14; c.fault_pct = 0; c.missing_pct = 0; c.max_mixins = 6;
    }, [](const Counts& c) { return has(c, "mutation changed by rules") > 0; }});
    v.push_back({"C12", "collection", "types are collected, or dropped by unregistration, while others stay", 60000, 3000000, [](w::Cfg& c) {
        c.dup_names = true; c.w_gc = 6; c.w_unreg = 6; c.w_reg = 6; c.w_gettype = 14; c.w_create = 6; c.w_destroy = 4; c.w_reset = 2; c.w_mutate = 2; c.w_mutate_to = c.w_gradual = c.w_piecewise = c.w_copy_match = c.w_move_match = c.w_compare = c.w_poke = 0; c.w_move_asgn = 1; c.w_copy = c.w_copy_from = 1; c.two_domains = true; c.max_rules = 3; c.missing_pct = 0; c.fault_pct = 8; c.avg_ops = 28; c.deep_pct = 35; c.c_pct = 20;
    }, [](const Counts& c) { return has(c, "gc that drops some types and keeps some") || has(c, "types dropped by unregistration"); }});
    v.push_back({"C14", "mixed C and C++", "an operation is done or refused through C", 60000, 3000000, [](w::Cfg& c) {
        c.c_pct = 85; c.fault_pct = 30; c.two_domains = true; c.odd_names = true; c.dup_names = true; c.w_mutate = 6; c.w_mutate_to = 6; c.w_badreg = 2; c.w_tc = 2; c.w_rule = 3; c.missing_pct = 8; c.avg_ops = 16;
    }, [](const Counts& c) { return has(c, "through C") > 1; }});
    v.push_back({"C15", "requests", "a mutation with operations keeps, adds or removes mixins, or has an ignored override", 60000, 3000000, [](w::Cfg& c) {
        no_domain_edits(c); c.w_mutate = 12; c.w_mutate_to = 12; c.w_gradual = 8; c.w_piecewise = 8; c.w_create = 6; c.w_reset = 1; c.w_copy = c.w_copy_from = c.w_copy_match = c.w_move_match = c.w_move_ctor = c.w_move_asgn = c.w_compare = 0; c.w_clear = 1; c.missing_pct = 3; c.max_mixins = 7; c.fault_pct = 10; c.avg_ops = 14; c.c_pct = 25; c.odd_names = true; c.dup_names = true;
    }, [](const Counts& c) { return has(c, "mutation") > 0 && (has(c, "override run") || has(c, "override ignored") || has(c, "piecewise mutation rolled back") || has(c, "cancelled mutation")); }});
    v.push_back({"C16", "names in domains", "a type of 3 or more mixins with prefix-sharing, embedded-zero or high-byte names is created and looked up", 30000, 1500000, [](w::Cfg& c) {
        no_objects(c); c.canon_pct = 70; c.odd_names = true; c.min_mixins = 3; c.max_mixins = 9; c.max_feats = 3; c.missing_pct = 0; c.w_gettype = 10; c.w_reg = 4; c.w_unreg = 4; c.w_tc = 2; c.w_cmptypes = 2; c.deep_pct = 50; c.fault_pct = 0; c.c_pct = 30; c.avg_ops = 12; c.odd_pct = 100;
    }, [](const Counts& c) { return has(c, "type of 3 or more mixins created") > 0; }});
    v.push_back({"C21", "inspection", "a domain with types or rules is dumped and traversed", 40000, 2000000, [](w::Cfg& c) {
        c.w_traverse = 8; c.deep_pct = 60; c.two_domains = c.odd_names = c.dup_names = c.default_alloc_dom = true; c.w_rule = 5; c.w_tc = 4; c.w_gettype = 8; c.w_create = 3; c.w_mutate = c.w_mutate_to = c.w_reset = 1; c.w_piecewise = c.w_gradual = c.w_copy_match = c.w_move_match = c.w_compare = c.w_poke = 0; c.avg_ops = 16; c.max_rules = 5; c.w_foreign = 2; c.w_badreg = 3; c.fault_pct = 5; c.min_mixins = 1;
    }, [](const Counts& c) { return has(c, "domain dumped and traversed") > 0; }});
    v.push_back({"C22", "domains and objects", "an object is made and mutated, moved, copied or destroyed, or types collected", 60000, 3000000, [](w::Cfg& c) {
        c.two_domains = c.odd_names = c.dup_names = c.default_alloc_dom = true; c.fault_pct = 15; c.w_move_asgn = 3; c.big_layout = true;
    }, [](const Counts& c) { return has(c, "object made") && (has(c, "mutation") || has(c, "move") || has(c, "copy") || has(c, "types collected")); }});
    return v;
}

struct RegAll {
    RegAll() {
        for (auto& p : profiles()) {
            auto cfg = std::make_shared<w::Cfg>();
            p.set(*cfg);
            cfg->name = std::string(p.prop) + "/" + p.part;
            cfg->nontrivial = p.nontrivial;
            vp::registry()[p.prop].push_back(vp::Part{p.part, std::string(how) + p.what, [cfg](vp::Src& s) { w::run_machine(s, *cfg); }, p.quick, p.thorough});
        }
    }
} reg_all;
}
