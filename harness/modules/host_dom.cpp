#include "host.hpp"
#include <dynamix/define_domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
namespace host {
DYNAMIX_DEFINE_DOMAIN(host_domain, "host");
DYNAMIX_DEFINE_DOMAIN(other_domain, "other", dynamix::domain_settings_builder().canonicalize_types(true));
}
