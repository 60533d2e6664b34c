#pragma once
#include "host.hpp"
DYNAMIX_DECLARE_EXPORTED_MIXIN(HOST_API, struct pb1);
DYNAMIX_DECLARE_EXPORTED_TYPE_CLASS(HOST_API, with_pb1);
