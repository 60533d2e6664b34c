#include "traits.hpp"
#include "describe.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/define_type_class.hpp>
namespace host {
struct core : counted {
    int touched = 0;
    core() : counted("core") {}
    std::string work(int x) const { return "core " + std::to_string(x); }
    void tell(strings& s) const { s.push_back("core"); }
};
DYNAMIX_DEFINE_MIXIN(host_domain, core)
    .implements<work_msg>()
    .implements<tell_msg>()
    .implements_by<touch_msg>([](core* c, int x) { return c->touched += x; })
;
struct base : counted {
    char pad[77];
    base() : counted("base") {}
    void tell(strings& s) const { s.push_back("base"); }
};
DYNAMIX_DEFINE_MIXIN(host_domain, base)
    .implements<tell_msg>(2_prio)
;
struct alignas(64) orphan : counted { orphan() : counted("orphan") {} };
DYNAMIX_DEFINE_MIXIN(host_domain, orphan);
DYNAMIX_DEFINE_TYPE_CLASS_WITH(host_domain, with_core, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<core>(); });

const dynamix::mutation_rule_info shared_rule = {dnmx_make_sv_lit("shared"), [](dnmx_type_mutation_handle h, uintptr_t) -> dynamix::error_return_t {
    auto m = dynamix::type_mutation::from_c_handle(h);
    if (m->has<orphan>()) m->add_if_lacking<core>();
    return dynamix::result_success;
}, 0, 0};

void describe_host(module_desc& d) {
    static mod_mixin m[3];
    m[0] = describe<core>("core"); m[1] = describe<base>("base"); m[2] = describe<orphan>("orphan");
    d = {"host", &dynamix::g::get_domain<host_domain>(), m, 3, nullptr, [](const dynamix::object& o) { return o.is_of<with_core>(); }};
}
}
