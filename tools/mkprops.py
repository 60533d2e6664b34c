#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
D = "code/dynamix/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Types: one type per final mixin list, with exactly that composition",
  "Asking a domain for the type of a mixin list returns a type whose mixins are exactly the list that remains after dependency mixins are stripped and mutation rules are applied, in that order (sorted by order priority, then name, then id when the domain canonicalizes types); two requests return the same type object exactly when those final lists are equal, and the empty list always gives the domain's one empty type. "
  "A list whose result contains an unregistered mixin, a duplicate, or a mixin of another domain, or a mutation started in another domain, is rejected with an error, creates no type, and leaves later requests unaffected. "
  "A type lists index, presence (by info, id and name) consistently with that mixin list for every registered or unregistered mixin.",
  "inputs histories configurations",
  "all mixin sets, query orders, domain settings and histories of earlier requests in up to three domains",
  "the tests build a few fixed types; identity and composition must hold for every list, order and prior cache content",
  [D+"domain.cpp", D+"type.cpp", D+"type.hpp", D+"type_mutation.cpp"],
  [("query cache and type set lookup in get_type", D+"domain.cpp"), ("validity check before a type is created", D+"domain.cpp"), ("canonicalizing rule", D+"domain.cpp")],
  [("type registry", "types by final list, queries by original list", D+"domain.cpp")], ["domain::get_type", "type::mixins/index_of/has", "domain::num_types"])

p("C02", "Feature resolution: order, top bidders, clashes, next implementer",
  "For every type and feature, the payloads reachable on the type are exactly those its mixins provide, ordered by bid descending, then priority ascending, then later mixin first; the top set is exactly the leading run with the highest bid, and the next implementer or next bidder set after a mixin is what follows it in that order. "
  "If a feature forbids clashes and two payloads tie on bid and priority, the type is refused with an error and nothing is created. "
  "A type strongly implements a feature exactly when one of its mixins provides it, and implements it also when the feature has a default payload.",
  "inputs configurations",
  "all assignments of features, bids, priorities and mixin orders, including sparse and reused feature ids",
  "tests fix a handful of bid/priority combinations; ordering and clash detection must hold for any combination and count",
  [D+"domain.cpp", D+"type.cpp", "code/dnmx/basic_type.h"],
  [("feature table construction and sort", D+"domain.cpp"), ("find_next_implementer/find_next_bidder_set", D+"type.cpp")], (), ["type::ftable_at", "type::implements*", "type::find_next_*"])

p("C03", "Messages: who is called, in which order, with what result",
  "A unicast message on an object runs exactly the top payload of its type, on that mixin's own instance; a multicast runs every payload of the highest bid exactly once, from lowest to highest precedence, and returns the result of the highest-precedence one. "
  "Next-implementer and next-bidder calls made from inside a mixin reach exactly the payloads the type lists after that mixin, and report absence correctly. "
  "An object that lacks the message runs the default implementation with the object itself if there is one and otherwise fails with a feature error; by-value arguments reach every callee with the value passed, and the last callee receives a moved rather than copied one.",
  "inputs histories",
  "all combinations of mixins, bids, priorities, mutation histories and message signatures (0..3 arguments, value/reference/const)",
  "tests call a few messages on fixed objects; the dispatch target must be right after any mutation history",
  [D+"msg/msg_caller.hpp", D+"msg/msg_traits.hpp", D+"msg/next_impl.hpp", D+"msg/define_msg.hpp", D+"msg/func_traits.hpp"],
  [("call_unicast/call_multicast/try_default_payload", D+"msg/msg_caller.hpp"), ("next-impl helpers", D+"msg/next_impl.hpp")], (), ["message functions"])

p("C04", "Registries: ids, names and ownership of mixins, features, type classes",
  "Registering a mixin, feature or type class makes it findable by id and name until it is unregistered and gives it the least free id; ids are unique, stay stable while registered, are invalid otherwise, and registering a mixin also registers its unregistered features. "
  "Empty or duplicate names (unless the settings allow duplicates), an already registered info, an info belonging to another domain, and type classes without a function are refused with a domain error that leaves registered elements as they were. "
  "Unregistering an element that the domain does not own is refused without any effect on either domain's registered elements, types or stored queries.",
  "histories inputs configurations",
  "all register/unregister/lookup histories over up to three domains and all settings",
  "tests register fixed sets once; slot reuse and rejected calls must behave after any history",
  [D+"domain.cpp", D+"domain-c.cpp"],
  [("basic_register_l/basic_unregister_l", D+"domain.cpp"), ("register_type_class", D+"domain.cpp")],
  [("sparse arrays", "registered infos by id", D+"domain.cpp")], ["domain::get_mixin_info/get_feature_info/get_type_class"])

p("C05", "Mixin lifetimes: constructed once, destroyed once, nothing leaked",
  "Over any history of creating, mutating, copying, moving, clearing and destroying objects, every mixin instance is initialized once before any other use, is destroyed exactly once, and is never used or destroyed afterwards; when an object is destroyed or cleared all its mixins are destroyed and all its memory is returned. "
  "Every block is released to the same resource (object allocator or mixin allocator) it came from, with the same size and alignment, and a type's object count always equals the number of its live non-empty objects. "
  "Mixins of one object never share or overlap storage, each is aligned as declared, and each can be traced back to its owning object at any time, including from inside its constructor and destructor.",
  "histories inputs configurations",
  "all operation histories, mixin sizes (0 upward), alignments (1..256), internal/external/own-allocator mixins and allocators",
  "tests use a dozen fixed mixin types; balance and layout must hold for any mix and any sequence",
  [D+"object.cpp", D+"object_mutation.cpp", D+"domain.cpp", D+"type.cpp", D+"object_of.hpp"],
  [("allocate_mixin_data/deallocate_mixin_data/finalize/rollback", D+"object_mutation.cpp"), ("object buffer layout", D+"domain.cpp")],
  [("object_mixin_data", "buffer and mixin pointer per mixin", "code/dnmx/object_mixin_data.h")], ["mixin callbacks", "memory resource calls", "object_of"])

p("C06", "Mutation keeps the mixins common to both types",
  "Changing an object's type keeps every mixin that is in both types as the same instance with its state: it is never re-initialized or copied, an external one keeps its address, and an internal one is moved at most once; mixins only in the new type are initialized exactly once and those only in the old type are destroyed exactly once. "
  "After the mutation the object reports the new type and every mixin is found at its index, id and name; mutating to the object's current type changes nothing. "
  "Removing all mixins, by any mutation operation, leaves an empty object of the domain's empty type.",
  "histories inputs",
  "all pairs of types and all routes (reset_type, mutate, mutate_to, gradual mutation, object_mutation, clear)",
  "tests check a few transitions; state preservation must hold between any two types via every route",
  [D+"object_mutation.cpp", D+"object.cpp", D+"mutate.hpp", D+"mutate_to.hpp", D+"mutate_ops.hpp", D+"object_mutation.hpp"],
  [("update_next_mixin/finalize", D+"object_mutation.hpp"), ("same type shortcut", D+"object_mutation.cpp")], (), ["object::get", "object::get_type"])

p("C07", "A failed mutation or construction leaves no trace",
  "If any step of constructing, mutating or copying an object fails - a memory request, a mixin initializer or copy returning an error or throwing, a missing initializer, a user functor throwing - the error reaches the caller, and a mutated object keeps its previous type, mixin instances, addresses and state, while a constructed one does not exist. "
  "All mixins initialized by the failed attempt are destroyed and all memory it took is returned, type object counts are unchanged, and the same operation succeeds when retried without the fault. "
  "Operations performed by code that runs during stack unwinding of an unrelated exception take effect exactly as they would otherwise.",
  "fault_sequences histories inputs",
  "every failure point (k-th allocation, k-th initializer/copier, error code or exception) of every operation in random histories",
  "tests fail a few fixed callbacks; every failure point of every transition must roll back",
  [D+"object_mutation.cpp", D+"object.cpp", D+"object_mutation.hpp", D+"mutate_to.hpp"],
  [("object_mutation destructor and rollback", D+"object_mutation.cpp")], (), ["exceptions", "object state before/after"])

p("C08", "Copying: copy, copy_from and matching copy/move",
  "copy() of an object yields an unsealed object of the same type whose every mixin was copy-initialized from the corresponding mixin, leaving the source untouched; copy_from gives the target the source's type, copy-assigning mixins both have and copy-initializing the others, and destroying the rest. "
  "copy_matching_from and move_matching_from assign exactly the mixins both objects have and change neither type nor any other mixin. "
  "When a needed copy or move function is missing, the operation fails with an object error before anything is changed.",
  "histories inputs",
  "all pairs of object types, mixin capability combinations (missing init/copy/move/assign) and fallbacks",
  "tests copy a few objects; correspondence by mixin must hold for any two orders and overlaps",
  [D+"object.cpp", D+"type.cpp"],
  [("copy/copy_from/copy_matching_from/move_matching_from", D+"object.cpp")], (), ["mixin state", "object::get_type"])

p("C09", "Moving and sealing objects",
  "Moving an object transfers its type, mixin instances at their addresses, allocator and seal to the destination and leaves the source empty, unsealed and usable; the mixins then report the destination as their owner, and move-assignment first destroys what the destination held. "
  "Move-assignment between different allocators, or onto a sealed object, is refused and changes neither object. "
  "A sealed object refuses every type-changing operation (clear, reset, mutate, copy_from, move-assignment to it) with an object error and without any change, while copies of it are unsealed and its mixins stay usable.",
  "histories inputs",
  "all histories of moves, seals and mutation attempts over several objects and allocators",
  "tests move and seal once; ownership and refusal must hold over any history",
  [D+"object.cpp", D+"object.hpp", D+"object_mutation.cpp"],
  [("usurp", D+"object.cpp"), ("seal checks", D+"object.cpp")], (), ["object::sealed/empty/get_type", "object_of"])

p("C10", "Comparing objects and types",
  "equals is true for an object and itself, false for different types, and otherwise exactly when every pair of corresponding mixins is equal by the mixin's equality function, or by its comparison function when it has none, and false if a mixin has neither. "
  "compare of types is zero only for the same type and otherwise a strict total order that within a domain is lexicographic by canonical mixin order (order priority, then name, then id), a prefix coming first; compare of objects with different types has the sign of that order, and with the same type the sign of the first non-zero mixin comparison, failing with an object error on reaching a mixin without one. "
  "A type's capability queries (default constructible, copy constructible/assignable, comparable, equality comparable) and type-class membership hold exactly when every mixin has the function, or the class's function says so.",
  "inputs histories",
  "all pairs and triples of objects and types, including mixins with equal priorities, shared names and missing functions",
  "tests compare a few pairs; antisymmetry and transitivity are over all triples",
  [D+"object.cpp", D+"type.cpp", "code/dnmx/mixin_info.h", D+"domain.cpp"],
  [("object::equals/compare", D+"object.cpp"), ("type::compare and trait queries", D+"type.cpp"), ("canonical order", "code/dnmx/mixin_info.h")], (), ["return values"])

p("C11", "Mutation rules: applied in order until stable, reference counted",
  "A new query's type is what results from removing dependency mixins and applying all added rules in order of priority, then name, repeatedly until a pass changes nothing; rules that fail or do not settle (within 5 extra passes or as many as there are rules) make the request fail with a type error, and a query of settled rules never fails for lack of rules. "
  "A rule added several times takes effect once and until removed as many times; adding or removing a rule takes effect for all later requests, whatever was requested before, and does not alter existing types or objects. "
  "A rule without a function is refused; registering a mixin through its info data adds its rules, and unregistering removes them again.",
  "histories inputs configurations",
  "all rule sets (adders, removers, reorderers, cyclic, failing), priorities, reference counts and query histories",
  "tests use a few fixed rules; order, caching and settling must be right for arbitrary rule programs and histories",
  [D+"domain.cpp", D+"common_mutation_rules.hpp", D+"mixin_info_data.cpp"],
  [("apply_mutation_rules_l", D+"domain.cpp"), ("add/remove_mutation_rule and cache clearing", D+"domain.cpp")],
  [("mutation_rules", "sorted rules with counts", D+"domain.cpp"), ("type_queries", "query to type cache", D+"domain.cpp")], ["domain::get_type", "domain::num_mutation_rules"])

p("C12", "Garbage collection and unregistration drop exactly dead types",
  "Collecting garbage removes exactly the types that have no objects, together with all stored queries leading to them, and keeps every type that still has objects, and every pointer to it, valid. "
  "Unregistering a mixin removes exactly the types and stored queries that mention it, so that no later request or id reuse can ever yield a type with the unregistered mixin. "
  "Requesting a dropped combination again creates a correct type, destroying a domain returns all memory it took from its allocator, and a domain takes all its type memory from that allocator.",
  "histories",
  "all interleavings of type requests, object creation/destruction, collection and (un)registration with id reuse",
  "tests collect once; stale queries only appear after particular histories with id reuse",
  [D+"domain.cpp"],
  [("garbage_collect_types", D+"domain.cpp"), ("unregister_mixin purge", D+"domain.cpp")],
  [("types, type_queries", "live types and cached queries", D+"domain.cpp")], ["domain::num_types", "domain::num_type_queries", "domain::get_type"])

p("C13", "Type mutation edits a mixin list as documented",
  "add appends, add_if_lacking appends only when the mixin (or name) is absent, remove deletes the first occurrence and reports it, to_back moves the first occurrence to the end, dedup keeps only the last occurrence of each mixin in order, by info, by name or by type alike. "
  "Adding an unknown name or moving a missing mixin to the back is refused with a type error and changes nothing, while the safe variants return null. "
  "has, lacks, implements and implements_strong reflect the list at every step.",
  "histories inputs",
  "all edit sequences over any mixin pool, through the C++ and C interfaces",
  "tests run one sequence; the list semantics must hold for all",
  [D+"type_mutation.cpp", D+"type_mutation.hpp", D+"type_mutation-c.cpp"],
  [("type_mutation methods", D+"type_mutation.cpp")], (), ["type_mutation::mixins"])

p("C14", "The C interface does what the C++ interface does, and never throws",
  "Every C function has the effect and result of the corresponding C++ operation on the same domain, type, mutation or object, so that the two can be mixed freely. "
  "Where the C++ operation fails, the C function reports failure through its return value or null, changes nothing, and no exception leaves it, including for null types, empty overrides and failing callbacks. "
  "Lookups, feature tables and mixin access inlined for C agree with the C++ ones for all ids and names.",
  "histories inputs fault_sequences",
  "all sequences of C calls with generated arguments, mixed with C++ calls, with failing callbacks",
  "tests exercise each C function a few times and few failing arguments",
  [D+"domain-c.cpp", D+"type-c.cpp", D+"object-c.cpp", D+"type_mutation-c.cpp", D+"mutate-c.cpp", D+"mixin_allocator-c.cpp", "code/dnmx/mixin_common_funcs.c"],
  [("try/catch wrappers", D+"object-c.cpp"), ("dnmx_mutate/dnmx_mutate_to", D+"mutate-c.cpp")], (), ["return values", "object and domain state"])

p("C15", "Mutation requests: operations, constructors and overrides hit their mixin",
  "mutate applies its add, remove and to-back operations, by type, info or name, in order to the object's mixin list and then mutates the object to the resulting type; mutate_to mutates to the given type, and a gradual mutation applies its accumulated edits once when finished or applied, or never if cancelled. "
  "A constructor override (arguments or a function) is run exactly once, for exactly the mixin it names and only if that mixin is new in the resulting type; every other new mixin gets its default initializer, in type order, and arguments reach the mixin's constructor with the values passed. "
  "Overrides for mixins that do not end up in the type, or that the object already has, are ignored; piecewise mutations constructed out of order are refused and rolled back.",
  "inputs histories",
  "all operation lists over C++ and C mutation interfaces, including repeated and irrelevant overrides",
  "tests use a few fixed calls",
  [D+"mutate.hpp", D+"mutate_ops.hpp", D+"mutate_to.hpp", D+"mutate_to_ops.hpp", D+"object_mutate_ops.hpp", D+"object_mutation.hpp", D+"mutate-c.cpp", D+"bits/make_from_tuple.hpp"],
  [("filter, sort and piecewise construction", D+"mutate_to.hpp"), ("update_at", D+"object_mutation.hpp")], (), ["mixin initializer calls", "object type"])

p("C16", "String views behave like the text they denote",
  "Comparison, equality, construction, conversion, prefix tests and character searches of the library's string views agree, for all byte contents and lengths including empty and prefix-sharing views of one buffer, with what the denoted byte sequences give. "
  "Equality is an equivalence and comparison a total order consistent with it, in C and C++. "
  "Names taken from views with embedded or unterminated data are found, compared and ordered by exactly those bytes.",
  "inputs",
  "all pairs and triples of views, aliasing or not, with arbitrary bytes",
  "tests compare a few literals; prefix views of one buffer, high bytes and empties are not covered",
  ["code/dnmx/bits/sv.h", "code/dnmx/mixin_info.h"],
  [("dnmx_sv_cmp and friends", "code/dnmx/bits/sv.h")], (), ["return values"])

p("C17", "Built mixin and feature infos describe the C++ type",
  "A mixin info built for a C++ class offers default construction, copying, moving, assignment and destruction exactly when the class does (moving only when it cannot throw) and each offered function has the effect of the C++ operation; its size, alignment and buffer layout match the class. "
  "Builder calls (name, allocator, user data, dependency, features with payload/bid/priority, rules) appear in the info exactly as given, survive further builder calls, and payloads and names owned by the data stay valid for its lifetime and are released with it. "
  "Registering through the data registers the info and its rules in the domain and unregistering undoes both; if registering fails the domain is left without them.",
  "inputs programs histories",
  "all classes of special-member combinations in a generated family and all builder call sequences",
  "tests build a few infos",
  [D+"mixin_info_util.hpp", D+"mixin_info_data.hpp", D+"mixin_info_data.cpp", D+"feature_info_data.hpp", D+"common_mutation_rules.hpp", "code/dnmx/mixin_common_funcs.c", "code/dnmx/mixin_info.h", D+"define_mixin.hpp", D+"declare_mixin.hpp"],
  [("common_init_mixin_info", D+"mixin_info_util.hpp"), ("mixin_info_data_builder", D+"mixin_info_data.hpp")], (), ["info fields and functions", "domain contents"])

p("C18", "v1 mutation rules transform a type as named",
  "Each v1 rule transforms the mixin list exactly as its name says: mutually exclusive keeps only the last of its mixins, mandatory adds and keeps its mixins, deprecated removes them, substitute replaces its source by its target, and dependent adds the dependent whenever the source is present; all other mixins keep their relative order. "
  "A rule is active from adding until it is removed by its id, removing an unknown or already removed id does nothing, and freed ids are reused. "
  "Types and objects obtained through the v1 interface follow the active rules at each moment.",
  "inputs histories",
  "all rule sets, mixin lists and add/remove histories",
  "tests use one instance of each rule",
  ["v1compat/code/dynamix/v1compat/mutation_rules.cpp", "v1compat/code/dynamix/v1compat/common_mutation_rules.hpp", "v1compat/code/dynamix/v1compat/mutation_rule.hpp"],
  [("rule registry and rule transformations", "v1compat/code/dynamix/v1compat/mutation_rules.cpp")], (), ["object types after mutation"])

p("C19", "v1 messages and combinators",
  "A v1 unicast calls the top bidder, a v1 multicast calls each top bidder once in precedence order, next-bidder calls reach the overridden implementation, and default implementations run when nothing implements the message. "
  "A multicast with a combinator feeds it the results of the payloads in call order, stopping exactly when the combinator says so: boolean and/or short-circuit to the logical and/or, sum is the sum and mean the average over the payloads called. "
  "Arguments reach every callee unchanged for every arity and constness, by value and by reference.",
  "inputs histories",
  "all sets of implementers with generated results, bids, priorities and arities 0..3, including none",
  "tests combine one fixed set of results",
  ["v1compat/code/dynamix/v1compat/combinators.hpp", "v1compat/code/dynamix/v1compat/declare_message.hpp", "v1compat/code/dynamix/v1compat/define_message.hpp", "v1compat/code/dynamix/v1compat/next_bidder.hpp", "v1compat/gen/message_macros_template", "v1compat/gen/create_combinator_call_template", D+"msg/msg_caller.hpp"],
  [("combinators", "v1compat/code/dynamix/v1compat/combinators.hpp"), ("call_with_v1_combinator", D+"msg/msg_caller.hpp")], (), ["message results"])

p("C20", "A domain can be used from several threads",
  "Concurrent lookups, registrations and type requests on one domain give every thread results that some one-at-a-time order of the calls would give: equal final lists yield the same type, ids stay unique, and nothing is lost or torn. "
  "A rule added or removed, or a collection or unregistration done, while a type request is in progress never leaves behind a stored answer that contradicts the state after both have finished. "
  "Objects of one type may be created and destroyed by several threads, and the type's object count ends exact.",
  "schedules",
  "all interleavings of 2..4 threads of domain operations, and all placements of one operation inside another's unlocked window",
  "tests run a few threads hoping for overlap; specific windows are never forced",
  [D+"domain.cpp", D+"type.cpp"],
  [("element and type registry mutexes", D+"domain.cpp"), ("atomic object counter", D+"type.hpp")], (), ["domain::get_type", "domain::num_types", "type::num_objects"])

p("C21", "Inspection reports exactly what exists",
  "Traversing a domain visits each registered mixin, feature and type class, each added rule with its reference count, each existing type and each stored query exactly once, and nothing else. "
  "Dumping a domain, type or mixin writes a text that names each of those elements with the values of its attributes and shows how many of each there are and how many ids below the last are unused, for every content including empty domains and featureless types, and changes nothing. "
  "Error messages of failed operations name the domain, type and element concerned.",
  "histories inputs",
  "all domain contents reachable by histories",
  "tests check one dump",
  [D+"dbg_dmp.cpp", D+"domain_traverse.hpp", D+"domain.cpp", D+"throw_exception.cpp"],
  [("domain_traverse", D+"domain.cpp"), ("dbg_dmp", D+"dbg_dmp.cpp"), ("throw_exception", D+"throw_exception.cpp")], (), ["callbacks", "dump text", "exception::what"])

p("C22", "The memory-resource compatibility layer works like the standard one",
  "With the compatibility memory resources selected, domains and objects behave exactly as with the standard ones for the same calls. "
  "The default resource returns distinct, writable blocks of the requested size and alignment and takes them back (what was given back is available again), for all sizes and power-of-two alignments; allocators compare equal exactly when they use the same resource. "
  "Sizes are rounded to alignments without loss for all sizes.",
  "configurations inputs histories",
  "all allocation patterns, and generated object histories run on both builds",
  "the default configuration never compiles this code",
  [D+"compat/pmr/memory_resource.cpp", D+"compat/pmr/memory_resource.hpp", D+"compat/pmr/allocator.hpp", D+"alloc_util.hpp"],
  [("new/delete resource", D+"compat/pmr/memory_resource.cpp"), ("next_multiple", D+"alloc_util.hpp")], (), ["pointers returned", "object histories"])

p("C23", "Modules: definitions of a plugin come and go with it",
  "A shared library which defines mixins (with their mutation rules), type classes or a domain with the macros of the library may be loaded into and unloaded from a running program, in any order and any number of times, several files of one library in any link order. "
  "Loading registers exactly its definitions, once each, and leaves existing types, objects and the answers of messages as they were; later requests and mutations follow the new rules, and messages of the program reach the new mixins. "
  "Unloading, when no object has its mixins, removes exactly its definitions and the types and stored queries which mention its mixins; all else stays where it is, later requests no longer follow its rules, its names are unknown and free for another version, and nothing in the program refers to it any more.",
  "histories configurations",
  "all orders of loading, unloading and reloading of plugins between operations on objects",
  "one fixed sequence of two plugins is in a test which is not built here; stale rules, queries and infos show only in some orders",
  [D+"define_mixin.hpp", D+"define_domain.hpp", D+"define_type_class.hpp", D+"mixin_info_data.cpp", D+"domain.cpp", D+"msg/define_msg.hpp"],
  [("registration by static objects", D+"define_mixin.hpp"), ("type class registration", D+"define_type_class.hpp"), ("rules of a mixin", D+"mixin_info_data.cpp"), ("unregister_mixin drops types and queries", D+"domain.cpp")],
  [("mixin_info_data", "an info with its rules, alive while its module is", D+"mixin_info_data.hpp")], ["domain_traverse", "domain::get_mixin_info", "message calls", "dlopen/dlclose"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
