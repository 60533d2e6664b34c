// What the host program gives its modules: a domain, messages, mixins.
#pragma once
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/allocator.hpp>
#include <string>
#include <vector>
#define HOST_API __attribute__((visibility("default")))
namespace host {
using strings = std::vector<std::string>;
DYNAMIX_DECLARE_EXPORTED_DOMAIN(HOST_API, host_domain);
DYNAMIX_DECLARE_EXPORTED_DOMAIN(HOST_API, other_domain);
DYNAMIX_DECLARE_EXPORTED_MSG(HOST_API, work_msg, work, std::string, (const dynamix::object&, int));
DYNAMIX_DECLARE_EXPORTED_MSG(HOST_API, tell_msg, tell, void, (const dynamix::object&, strings&));
DYNAMIX_DECLARE_EXPORTED_SIMPLE_MSG(HOST_API, touch_msg, int(dynamix::object&, int));
// not implemented by anything of the host
DYNAMIX_DECLARE_EXPORTED_MSG(HOST_API, extra_msg, extra, std::string, (dynamix::object&));
DYNAMIX_DECLARE_EXPORTED_MIXIN(HOST_API, struct core);
DYNAMIX_DECLARE_EXPORTED_MIXIN(HOST_API, struct base);
DYNAMIX_DECLARE_EXPORTED_MIXIN(HOST_API, struct orphan);
DYNAMIX_DECLARE_EXPORTED_TYPE_CLASS(HOST_API, with_core);

// a rule for several modules: with orphan, core is added
HOST_API extern const dynamix::mutation_rule_info shared_rule;

// how many instances of the module's classes are alive, by name
HOST_API void born(const char* name);
HOST_API void died(const char* name);
struct counted {
    const char* name;
    explicit counted(const char* n) : name(n) { born(n); }
    counted(const counted& o) : name(o.name) { born(name); }
    counted& operator=(const counted&) { return *this; }
    ~counted() { died(name); }
};

// what the domains of modules allocate with
HOST_API dynamix::allocator module_alloc();

// what a module tells of itself
struct mod_mixin {
    const char* name;
    const dynamix::mixin_info* info;
    void (*add)(dynamix::object&);    // by static type
    void (*remove)(dynamix::object&);
    const void* (*get)(const dynamix::object&);
};
struct module_desc {
    const char* name;
    dynamix::domain* dom;
    const mod_mixin* mixins; int num_mixins;
    dynamix::domain* own_dom; // of the module, or null
    bool (*is_of)(const dynamix::object&); // the type class of the module, or null
};
template <typename M> mod_mixin describe(const char* name);
}
