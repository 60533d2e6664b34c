// stand-in for iboB/itlib flat_set.hpp
#pragma once
#include <algorithm>
#include <functional>
#include <vector>
namespace itlib {
template <typename Key, typename Compare = std::less<Key>, typename Container = std::vector<Key>>
class flat_set {
    Container m_c;
    Compare m_cmp;
public:
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    flat_set() = default;
    iterator begin() noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    const_iterator end() const noexcept { return m_c.end(); }
    std::size_t size() const noexcept { return m_c.size(); }
    bool empty() const noexcept { return m_c.empty(); }
    void clear() noexcept { m_c.clear(); }
    void reserve(std::size_t n) { m_c.reserve(n); }
    template <typename K> iterator find(const K& k) { auto i = std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp); return (i != m_c.end() && !m_cmp(k, *i)) ? i : m_c.end(); }
    template <typename K> std::size_t count(const K& k) const { return std::binary_search(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename V> std::pair<iterator, bool> insert(V&& v) {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), v, m_cmp);
        if (i != m_c.end() && !m_cmp(v, *i)) return {i, false};
        return {m_c.insert(i, std::forward<V>(v)), true};
    }
    template <typename K> std::size_t erase(const K& k) { auto f = find(k); if (f == end()) return 0; m_c.erase(f); return 1; }
    const Container& container() const noexcept { return m_c; }
    Container& modify_container() noexcept { return m_c; }
};
}
