#include "traits.hpp"
#include <dynamix/msg/define_msg.hpp>
namespace host {
DYNAMIX_DEFINE_MSG(work_msg, unicast, work, std::string, (const dynamix::object&, int));
DYNAMIX_DEFINE_MSG(tell_msg, multicast, tell, void, (const dynamix::object&, strings&));
DYNAMIX_DEFINE_SIMPLE_MSG(touch_msg, unicast);
static std::string no_extra(dynamix::object&) { return "no extra"; }
DYNAMIX_DEFINE_MSG_EX(extra_msg, unicast, true, &no_extra, extra, std::string, (dynamix::object&));
}
