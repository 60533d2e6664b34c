#pragma once
#define PRAGMA_WARNING_PUSH _Pragma("GCC diagnostic push")
#define PRAGMA_WARNING_POP _Pragma("GCC diagnostic pop")
#define DISABLE_MSVC_WARNING(n)
#if defined(__clang__)
#   define I_SPLAT_PRAGMA(x) _Pragma(#x)
#   define DISABLE_CLANG_WARNING(w) I_SPLAT_PRAGMA(clang diagnostic ignored w)
#   define DISABLE_GCC_WARNING(w)
#else
#   define DISABLE_CLANG_WARNING(w)
#   define I_SPLAT_PRAGMA(x) _Pragma(#x)
#   define DISABLE_GCC_WARNING(w) I_SPLAT_PRAGMA(GCC diagnostic ignored w)
#endif
#define PRAGMA_WARNING(x)
