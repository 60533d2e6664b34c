// uses the mixin of module b
#include "mod_b.hpp"
#include "traits.hpp"
#include "describe.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/common_mutation_rules.hpp>
using namespace host;
struct pd1 : counted {
    pd1() : counted("pd1") {}
    void tell(strings& s) const { s.push_back("pd1"); }
    std::string work(int x) const { return "pd1 " + std::to_string(x); }
};
struct pd2 : counted { pd2() : counted("pd2") {} void tell(strings& s) const { s.push_back("pd2"); } };
DYNAMIX_DEFINE_MIXIN(host_domain, pd1)
    .implements<work_msg>(0_bid, 5_prio)
    .implements<tell_msg>()
    .on_mutation(attaches_to<pb1>())
    .adds_mutation_rule(shared_rule);
DYNAMIX_DEFINE_MIXIN(host_domain, pd2)
    .implements<tell_msg>()
    .on_mutation(also_adds<pb1>())
    .on_mutation(also_adds<core>());
DYNAMIX_DECLARE_TYPE_CLASS(with_pd2);
DYNAMIX_DEFINE_TYPE_CLASS_WITH(host_domain, with_pd2, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<pd2>(); });
extern "C" HOST_API void module_info(module_desc& d) {
    static mod_mixin m[2];
    m[0] = describe<pd1>("pd1"); m[1] = describe<pd2>("pd2");
    d = {"d", &dynamix::g::get_domain<host_domain>(), m, 2, nullptr, [](const dynamix::object& o) { return o.is_of<with_pd2>(); }};
}
