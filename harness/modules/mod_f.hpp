#pragma once
#include "host.hpp"
#include <dynamix/declare_domain.hpp>
DYNAMIX_DECLARE_DOMAIN(own_domain);
DYNAMIX_DECLARE_MSG(own_msg, own, std::string, (const dynamix::object&));
DYNAMIX_DECLARE_MIXIN(struct pf1);
DYNAMIX_DECLARE_MIXIN(struct pf2);
DYNAMIX_DECLARE_TYPE_CLASS(with_pf1);
