// stand-in for iboB/itlib span.hpp
#pragma once
#include <cassert>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <utility>
namespace itlib {
template <typename T>
class span {
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using const_reference = const T&;
    using iterator = pointer;
    using const_iterator = const_pointer;
    using reverse_iterator = std::reverse_iterator<iterator>;

    constexpr span() noexcept = default;
    constexpr span(std::nullptr_t) noexcept = delete;
    constexpr span(T* b, std::size_t n) noexcept : m_begin(b), m_end(n ? b + n : b) {}
    constexpr span(T* b, T* e) noexcept : m_begin(b), m_end(e) {}
    template <std::size_t N>
    constexpr span(T (&a)[N]) noexcept : span(a, N) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>>
    constexpr span(const span<U>& o) noexcept : m_begin(o.data()), m_end(o.data() + o.size()) {}
    template <typename C, typename = std::enable_if_t<
        std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())>(*)[], T(*)[]>
        && std::is_integral_v<decltype(std::declval<C&>().size())>>>
    constexpr span(C&& c) noexcept : span(c.data(), c.size()) {}

    constexpr span(const span&) noexcept = default;
    constexpr span& operator=(const span&) noexcept = default;

    constexpr T* data() const noexcept { return m_begin; }
    constexpr std::size_t size() const noexcept { return std::size_t(m_end - m_begin); }
    constexpr std::size_t size_bytes() const noexcept { return size() * sizeof(T); }
    [[nodiscard]] constexpr bool empty() const noexcept { return m_begin == m_end; }
    explicit constexpr operator bool() const noexcept { return !!m_begin; }
    constexpr T* begin() const noexcept { return m_begin; }
    constexpr T* end() const noexcept { return m_end; }
    constexpr const T* cbegin() const noexcept { return m_begin; }
    constexpr const T* cend() const noexcept { return m_end; }
    constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator(m_end); }
    constexpr reverse_iterator rend() const noexcept { return reverse_iterator(m_begin); }
    constexpr T& operator[](std::size_t i) const noexcept { assert(i < size()); return m_begin[i]; }
    constexpr T& at(std::size_t i) const noexcept { assert(i < size()); return m_begin[i]; }
    constexpr T& front() const noexcept { assert(!empty()); return *m_begin; }
    constexpr T& back() const noexcept { assert(!empty()); return m_end[-1]; }
    constexpr span subspan(std::size_t off, std::size_t n = std::size_t(-1)) const noexcept {
        if (off > size()) off = size();
        auto left = size() - off;
        return span(m_begin + off, n < left ? n : left);
    }
    constexpr span first(std::size_t n) const noexcept { return subspan(0, n); }
    constexpr span last(std::size_t n) const noexcept { return subspan(size() - n, n); }
private:
    T* m_begin = nullptr;
    T* m_end = nullptr;
};
template <typename T> span(T*, std::size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename T, std::size_t N> span(T (&)[N]) -> span<T>;
template <typename C> span(C&&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;

template <typename T>
constexpr span<T> make_span(T* p, std::size_t n) noexcept { return {p, n}; }
template <typename T>
constexpr span<T> make_span(T* b, T* e) noexcept { return {b, e}; }
template <typename C>
constexpr auto make_span(C&& c) noexcept { return span(std::forward<C>(c)); }
}
