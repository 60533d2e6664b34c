#include "mod_f.hpp"
#include <dynamix/msg/func_traits.hpp>
DYNAMIX_MAKE_FUNC_TRAITS(own);
#include <dynamix/msg/define_msg.hpp>
DYNAMIX_DEFINE_MSG(own_msg, unicast, own, std::string, (const dynamix::object&));
