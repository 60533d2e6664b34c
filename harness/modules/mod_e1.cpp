// a module of several files, with mixins in two domains
#include "mod_e.hpp"
#include "traits.hpp"
#include "describe.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/common_mutation_rules.hpp>
using namespace host;
struct pe1 : counted {
    pe1() : counted("pe1") {}
    void tell(strings& s) const { s.push_back("pe1"); }
};
DYNAMIX_DEFINE_MIXIN(host_domain, pe1)
    .implements<tell_msg>(1_bid)
    .on_mutation(also_adds<pe2>());
DYNAMIX_DECLARE_TYPE_CLASS(with_pe3);
DYNAMIX_DEFINE_TYPE_CLASS_WITH(other_domain, with_pe3, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<pe3>(); });
mod_mixin host::describe_pe1() { return describe<pe1>("pe1"); }
extern "C" HOST_API void module_info(module_desc& d) {
    static mod_mixin m[3];
    m[0] = describe_pe1(); m[1] = describe_pe2(); m[2] = describe_pe3();
    d = {"e", &dynamix::g::get_domain<host_domain>(), m, 3, nullptr, [](const dynamix::object& o) { return o.is_of<with_pe3>(); }};
}
