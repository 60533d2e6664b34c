#pragma once
#include "host.hpp"
#include <dynamix/msg/func_traits.hpp>
namespace host {
DYNAMIX_MAKE_FUNC_TRAITS(work);
DYNAMIX_MAKE_FUNC_TRAITS(tell);
DYNAMIX_MAKE_FUNC_TRAITS(extra);
}
