#pragma once
#define SPLAT_UNUSED(x) (void)(x)
