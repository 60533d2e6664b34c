// stand-in for iboB/itlib flat_map.hpp
#pragma once
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <utility>
#include <vector>
namespace itlib {
template <typename Key, typename T, typename Compare = std::less<Key>, typename Container = std::vector<std::pair<Key, T>>>
class flat_map {
    Container m_c;
    Compare m_cmp;
    template <typename K> auto lb(const K& k) { return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const auto& p, const auto& kk) { return m_cmp(p.first, kk); }); }
    template <typename K> auto lb(const K& k) const { return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const auto& p, const auto& kk) { return m_cmp(p.first, kk); }); }
public:
    using key_type = Key;
    using mapped_type = T;
    using value_type = std::pair<Key, T>;
    using container_type = Container;
    using key_compare = Compare;
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    using size_type = std::size_t;
    flat_map() = default;
    explicit flat_map(const Compare& cmp) : m_cmp(cmp) {}
    template <typename Alloc>
    flat_map(const Compare& cmp, const Alloc& a) : m_c(typename Container::allocator_type(a)), m_cmp(cmp) {}
    iterator begin() noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    const_iterator end() const noexcept { return m_c.end(); }
    auto rbegin() noexcept { return m_c.rbegin(); }
    auto rend() noexcept { return m_c.rend(); }
    auto rbegin() const noexcept { return m_c.rbegin(); }
    auto rend() const noexcept { return m_c.rend(); }
    size_type size() const noexcept { return m_c.size(); }
    bool empty() const noexcept { return m_c.empty(); }
    void clear() noexcept { m_c.clear(); }
    void reserve(size_type n) { m_c.reserve(n); }
    template <typename K> iterator lower_bound(const K& k) { return lb(k); }
    template <typename K> const_iterator lower_bound(const K& k) const { return lb(k); }
    template <typename K> iterator find(const K& k) { auto i = lb(k); return (i != m_c.end() && !m_cmp(k, i->first)) ? i : m_c.end(); }
    template <typename K> const_iterator find(const K& k) const { auto i = lb(k); return (i != m_c.end() && !m_cmp(k, i->first)) ? i : m_c.end(); }
    template <typename K> size_type count(const K& k) const { return find(k) != end(); }
    T& operator[](const Key& k) { return emplace(k, T{}).first->second; }
    T& at(const Key& k) { auto f = find(k); if (f == end()) throw std::out_of_range("flat_map"); return f->second; }
    const T& at(const Key& k) const { auto f = find(k); if (f == end()) throw std::out_of_range("flat_map"); return f->second; }
    std::pair<iterator, bool> insert(value_type v) { return emplace(std::move(v.first), std::move(v.second)); }
    template <typename K, typename... Args>
    std::pair<iterator, bool> emplace(K&& k, Args&&... args) {
        auto i = lb(k);
        if (i != m_c.end() && !m_cmp(k, i->first)) return {i, false};
        return {m_c.emplace(i, std::forward<K>(k), T(std::forward<Args>(args)...)), true};
    }
    template <typename K, typename... Args>
    std::pair<iterator, bool> try_emplace(K&& k, Args&&... args) { return emplace(std::forward<K>(k), std::forward<Args>(args)...); }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    template <typename K, typename = std::enable_if_t<!std::is_convertible_v<K, const_iterator> && !std::is_convertible_v<K, iterator>>>
    size_type erase(const K& k) { auto f = find(k); if (f == end()) return 0; m_c.erase(f); return 1; }
    const Container& container() const noexcept { return m_c; }
    Container& modify_container() noexcept { return m_c; }
    void swap(flat_map& o) noexcept { m_c.swap(o.m_c); std::swap(m_cmp, o.m_cmp); }
};
}
