// stand-in for iboB/itlib atomic.hpp
#pragma once
#include <atomic>
namespace itlib {
template <typename Integral>
class atomic_relaxed_counter {
    std::atomic<Integral> m;
public:
    atomic_relaxed_counter() noexcept : m(Integral(0)) {}
    atomic_relaxed_counter(Integral i) noexcept : m(i) {}
    atomic_relaxed_counter(const atomic_relaxed_counter&) = delete;
    atomic_relaxed_counter& operator=(const atomic_relaxed_counter&) = delete;
    Integral load() const noexcept { return m.load(std::memory_order_relaxed); }
    void store(Integral i) noexcept { m.store(i, std::memory_order_relaxed); }
    operator Integral() const noexcept { return load(); }
    Integral operator++() noexcept { return m.fetch_add(1, std::memory_order_relaxed) + 1; }
    Integral operator++(int) noexcept { return m.fetch_add(1, std::memory_order_relaxed); }
    Integral operator--() noexcept { return m.fetch_sub(1, std::memory_order_relaxed) - 1; }
    Integral operator--(int) noexcept { return m.fetch_sub(1, std::memory_order_relaxed); }
    Integral operator+=(Integral i) noexcept { return m.fetch_add(i, std::memory_order_relaxed) + i; }
    Integral operator-=(Integral i) noexcept { return m.fetch_sub(i, std::memory_order_relaxed) - i; }
};
}
