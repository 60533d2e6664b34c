#pragma once
#include "host.hpp"
DYNAMIX_DECLARE_MIXIN(struct pe1);
DYNAMIX_DECLARE_MIXIN(struct pe2);
DYNAMIX_DECLARE_MIXIN(struct pe3);
namespace host { mod_mixin describe_pe1(); mod_mixin describe_pe2(); mod_mixin describe_pe3(); }
