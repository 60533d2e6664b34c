// stand-in for iboB/doctest-util: only used to validate the stand-ins against the upstream tests
#pragma once
#include <doctest/doctest.h>
namespace doctest::util {
struct lifetime_stats;
namespace lc { struct data { int total=0,living=0,copies=0,m_ctr=0,m_asgn=0,c_ctr=0,c_asgn=0,d_ctr=0; }; }
template <typename T>
class lifetime_counter {
public:
    struct lifetime_stats : public lc::data {
        lifetime_stats* prev;
        lifetime_stats() : prev(cur) { cur = this; }
        ~lifetime_stats() { cur = prev; }
        lifetime_stats(const lifetime_stats&) = delete;
    };
    template <typename F> static void each(F f) { for (auto* s = cur; s; s = s->prev) f(*s); }
    lifetime_counter() noexcept { each([](auto& s){ ++s.total; ++s.living; ++s.d_ctr; }); }
    lifetime_counter(const lifetime_counter&) noexcept { each([](auto& s){ ++s.total; ++s.living; ++s.copies; ++s.c_ctr; }); }
    lifetime_counter& operator=(const lifetime_counter&) noexcept { each([](auto& s){ ++s.copies; ++s.c_asgn; }); return *this; }
    lifetime_counter(lifetime_counter&&) noexcept { each([](auto& s){ ++s.total; ++s.living; ++s.m_ctr; }); }
    lifetime_counter& operator=(lifetime_counter&&) noexcept { each([](auto& s){ ++s.m_asgn; }); return *this; }
    ~lifetime_counter() { each([](auto& s){ --s.living; }); }
    static inline lifetime_stats* cur = nullptr;
};
struct lifetime_counter_sentry {
    const lc::data& d; int start;
    lifetime_counter_sentry(const lc::data& dd) : d(dd), start(dd.living) {}
    ~lifetime_counter_sentry() { CHECK(d.living == start); }
};
}
