#include "mod_f.hpp"
#include "describe.hpp"
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/common_mutation_rules.hpp>
DYNAMIX_MAKE_FUNC_TRAITS(own);
using namespace host;
struct pf2 : counted { pf2() : counted("pf2") {} };
struct pf1 : counted { pf1() : counted("pf1") {} std::string own() const { return "pf1 own"; } };
DYNAMIX_DEFINE_MIXIN(own_domain, pf2);
DYNAMIX_DEFINE_MIXIN(own_domain, pf1).implements<own_msg>().on_mutation(also_adds<pf2>());
DYNAMIX_DEFINE_TYPE_CLASS_WITH(own_domain, with_pf1, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<pf1>(); });
extern "C" HOST_API void module_info(module_desc& d) {
    static mod_mixin m[2];
    m[0] = describe<pf1>("pf1"); m[1] = describe<pf2>("pf2");
    d = {"f", &dynamix::g::get_domain<own_domain>(), m, 2, &dynamix::g::get_domain<own_domain>(), [](const dynamix::object& o) { return o.is_of<with_pf1>(); }};
}
// a call through the module's message
extern "C" HOST_API void module_own(const dynamix::object& o, std::string& s) { s = own(o); }
