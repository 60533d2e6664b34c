// stand-in for iboB/itlib pmr_allocator.hpp (itlib is not available offline)
#pragma once
#include <cstddef>
#include <limits>
#include <memory_resource>
#include <new>
namespace itlib {
template <typename T = std::byte>
class pmr_allocator {
    std::pmr::memory_resource* m_resource;
public:
    using value_type = T;
    pmr_allocator() noexcept : m_resource(std::pmr::get_default_resource()) {}
    pmr_allocator(std::pmr::memory_resource* r) noexcept : m_resource(r) {}
    pmr_allocator(const pmr_allocator&) noexcept = default;
    template <typename U>
    pmr_allocator(const pmr_allocator<U>& o) noexcept : m_resource(o.resource()) {}
    template <typename U>
    pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : m_resource(o.resource()) {}
    pmr_allocator& operator=(const pmr_allocator&) = delete;

    template <typename U>
    operator std::pmr::polymorphic_allocator<U>() const noexcept { return std::pmr::polymorphic_allocator<U>(m_resource); }

    std::pmr::memory_resource* resource() const noexcept { return m_resource; }

    [[nodiscard]] T* allocate(std::size_t n) {
        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) throw std::bad_alloc();
        return static_cast<T*>(m_resource->allocate(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n) { m_resource->deallocate(p, n * sizeof(T), alignof(T)); }
    [[nodiscard]] void* allocate_bytes(std::size_t n, std::size_t a = alignof(std::max_align_t)) { return m_resource->allocate(n, a); }
    void deallocate_bytes(void* p, std::size_t n, std::size_t a = alignof(std::max_align_t)) { m_resource->deallocate(p, n, a); }
    pmr_allocator select_on_container_copy_construction() const { return {}; }
};
template <typename A, typename B>
bool operator==(const pmr_allocator<A>& a, const pmr_allocator<B>& b) noexcept { return *a.resource() == *b.resource(); }
template <typename A, typename B>
bool operator!=(const pmr_allocator<A>& a, const pmr_allocator<B>& b) noexcept { return !(a == b); }
}
