// Two versions of a module, which define mixins of the same names.
#include "traits.hpp"
#include "describe.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/common_mutation_rules.hpp>
using namespace host;
struct pa1 : counted {
    std::string text = "a text longer than what a string keeps in itself";
    pa1() : counted("pa1") {}
    std::string work(int x) const { return "pa1 v" + std::to_string(VERSION) + " " + std::to_string(x) + text.substr(0, 1); }
    void tell(strings& s) const { s.push_back("pa1 v" + std::to_string(VERSION)); }
};
struct pa2 : counted {
    pa2() : counted("pa2") {}
    void tell(strings& s) const { s.push_back("pa2 v" + std::to_string(VERSION)); }
    std::string extra() { return "pa2 extra"; }
};
#if VERSION == 1
DYNAMIX_DEFINE_MIXIN(host_domain, pa1)
    .implements<work_msg>(-1_bid)
    .implements<tell_msg>();
DYNAMIX_DEFINE_MIXIN(host_domain, pa2)
    .implements<tell_msg>(-1_prio)
    .on_mutation(attaches_to<core>());
#else
DYNAMIX_DEFINE_MIXIN(host_domain, pa2)
    .implements<tell_msg>()
    .implements<extra_msg>()
    .adds_mutation_rule(shared_rule)
    .dependency(false);
DYNAMIX_DEFINE_MIXIN(host_domain, pa1)
    .implements<work_msg>(1_bid)
    .implements<tell_msg>(1_bid);
#endif
DYNAMIX_DECLARE_TYPE_CLASS(with_pa);
#if VERSION == 1
DYNAMIX_DEFINE_TYPE_CLASS_WITH(host_domain, with_pa, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<pa1>(); });
#else
DYNAMIX_DEFINE_TYPE_CLASS_WITH(host_domain, with_pa, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<pa2>(); });
#endif
extern "C" HOST_API void module_info(module_desc& d) {
    static mod_mixin m[2];
    m[0] = describe<pa1>("pa1"); m[1] = describe<pa2>("pa2");
    d = {"a", &dynamix::g::get_domain<host_domain>(), m, 2, nullptr, [](const dynamix::object& o) { return o.is_of<with_pa>(); }};
}
