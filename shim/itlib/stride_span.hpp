// stand-in for iboB/itlib stride_span.hpp
#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T>
class stride_span {
    using byte_t = std::conditional_t<std::is_const_v<T>, const char, char>;
    byte_t* m_ptr = nullptr;
    std::size_t m_stride = 0, m_n = 0;
public:
    using value_type = std::remove_cv_t<T>;
    class iterator {
        byte_t* m_p; std::size_t m_s;
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_cv_t<T>;
        using difference_type = std::ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iterator(byte_t* p = nullptr, std::size_t s = 0) noexcept : m_p(p), m_s(s) {}
        T& operator*() const noexcept { return *reinterpret_cast<T*>(m_p); }
        T* operator->() const noexcept { return reinterpret_cast<T*>(m_p); }
        iterator& operator++() noexcept { m_p += m_s; return *this; }
        iterator operator++(int) noexcept { auto r = *this; m_p += m_s; return r; }
        iterator& operator--() noexcept { m_p -= m_s; return *this; }
        iterator operator+(std::ptrdiff_t n) const noexcept { return {m_p + n * std::ptrdiff_t(m_s), m_s}; }
        std::ptrdiff_t operator-(const iterator& o) const noexcept { return m_s ? (m_p - o.m_p) / std::ptrdiff_t(m_s) : 0; }
        bool operator==(const iterator& o) const noexcept { return m_p == o.m_p; }
        bool operator!=(const iterator& o) const noexcept { return m_p != o.m_p; }
        bool operator<(const iterator& o) const noexcept { return m_p < o.m_p; }
    };
    stride_span() noexcept = default;
    stride_span(byte_t* p, std::size_t stride, std::size_t n) noexcept : m_ptr(p), m_stride(stride), m_n(n) {}
    std::size_t size() const noexcept { return m_n; }
    bool empty() const noexcept { return m_n == 0; }
    iterator begin() const noexcept { return {m_ptr, m_stride}; }
    iterator end() const noexcept { return {m_ptr + m_stride * m_n, m_stride}; }
    T& operator[](std::size_t i) const noexcept { return *reinterpret_cast<T*>(m_ptr + i * m_stride); }
};
template <typename S, typename F, typename Base>
auto make_stride_span_member_view(S* arr, std::size_t n, F Base::*field) noexcept {
    using FT = std::conditional_t<std::is_const_v<S>, const F, F>;
    using B = std::conditional_t<std::is_const_v<S>, const char, char>;
    if (n == 0) return stride_span<FT>();
    return stride_span<FT>(reinterpret_cast<B*>(&(arr->*field)), sizeof(S), n);
}
}
