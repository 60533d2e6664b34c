// a module with a domain and a message of its own, linked in several orders
#include "mod_f.hpp"
#include <dynamix/define_domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
DYNAMIX_DEFINE_DOMAIN(own_domain, "own", dynamix::domain_settings_builder().canonicalize_types(true), 0, nullptr, host::module_alloc());
