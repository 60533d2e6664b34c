// stand-in for iboB/splat (not available offline): only what dynamix uses
#pragma once
#if defined(_MSC_VER)
#   define FORCE_INLINE __forceinline
#   define NEVER_INLINE __declspec(noinline)
#else
#   define FORCE_INLINE __attribute__((always_inline)) inline
#   define NEVER_INLINE __attribute__((noinline))
#endif
#ifndef ALWAYS_INLINE
#   define ALWAYS_INLINE FORCE_INLINE
#endif
