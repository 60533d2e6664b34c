#include "mod_b.hpp"
#include "traits.hpp"
#include "describe.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/common_mutation_rules.hpp>
using namespace host;
struct pb1 : counted {
    int n = 0;
    pb1() : counted("pb1") {}
    void tell(strings& s) const { s.push_back("pb1"); }
};
DYNAMIX_DEFINE_MIXIN(host_domain, pb1)
    .implements<tell_msg>()
    .implements_by<touch_msg>([](pb1* c, int x) { return c->n += 100 * x; }, 1_bid)
    .on_mutation(also_adds<base>());
DYNAMIX_DEFINE_TYPE_CLASS_WITH(host_domain, with_pb1, [](dnmx_type_handle t) noexcept { return dynamix::type::from_c_handle(t)->has<pb1>(); });
extern "C" HOST_API void module_info(module_desc& d) {
    static mod_mixin m[1];
    m[0] = describe<pb1>("pb1");
    d = {"b", &dynamix::g::get_domain<host_domain>(), m, 1, nullptr, [](const dynamix::object& o) { return o.is_of<with_pb1>(); }};
}
