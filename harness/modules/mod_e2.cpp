#include "mod_e.hpp"
#include "traits.hpp"
#include "describe.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/type_mutation.hpp>
using namespace host;
struct pe2 : counted {
    char x[200];
    pe2() : counted("pe2") {}
    void tell(strings& s) const { s.push_back("pe2"); }
    std::string extra() { return "pe2 extra"; }
};
struct pe3 : counted { pe3() : counted("pe3") {} pe3(const pe3&) = delete; };
// one function for two rules
static dynamix::error_return_t with_pe2(dnmx_type_mutation_handle h, uintptr_t which) {
    auto m = dynamix::type_mutation::from_c_handle(h);
    if (!m->has<pe2>()) return dynamix::result_success;
    if (which) m->add_if_lacking<orphan>(); else m->add_if_lacking<base>();
    return dynamix::result_success;
}
DYNAMIX_DEFINE_MIXIN(host_domain, pe2)
    .implements<tell_msg>(1_bid, 3_prio)
    .implements<extra_msg>()
    .adds_mutation_rule(with_pe2, 0)
    .adds_mutation_rule(with_pe2, 1)
    .dependency(false);
DYNAMIX_DEFINE_MIXIN(other_domain, pe3);
mod_mixin host::describe_pe2() { return describe<pe2>("pe2"); }
mod_mixin host::describe_pe3() { return describe<pe3>("pe3"); }
