// stand-in for iboB/itlib qalgorithm.hpp
#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace itlib {
template <typename C, typename V> auto qfind(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto qfind_if(C&& c, P&& p) { return std::find_if(std::begin(c), std::end(c), std::forward<P>(p)); }
namespace qimpl {
template <typename C, typename I>
auto to_ptr(C& c, I i) -> decltype(&*i) { if (i == std::end(c)) return nullptr; return &*i; }
}
template <typename C, typename V> auto pfind(C&& c, const V& v) { return qimpl::to_ptr(c, std::find(std::begin(c), std::end(c), v)); }
template <typename C, typename P> auto pfind_if(C&& c, P&& p) { return qimpl::to_ptr(c, std::find_if(std::begin(c), std::end(c), std::forward<P>(p))); }
template <typename C, typename V> auto qcount(C&& c, const V& v) { return std::count(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto qcount_if(C&& c, P&& p) { return std::count_if(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename P> bool qall_of(C&& c, P&& p) { return std::all_of(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename P> bool qany_of(C&& c, P&& p) { return std::any_of(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename P> bool qnone_of(C&& c, P&& p) { return std::none_of(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename F> void qfor_each(C&& c, F&& f) { std::for_each(std::begin(c), std::end(c), std::forward<F>(f)); }
template <typename C> void qsort(C&& c) { std::sort(std::begin(c), std::end(c)); }
template <typename C, typename P> void qsort(C&& c, P&& p) { std::sort(std::begin(c), std::end(c), std::forward<P>(p)); }
template <typename C, typename T> T qaccumulate(C&& c, T t) { return std::accumulate(std::begin(c), std::end(c), t); }
template <typename C, typename V>
bool erase_first(C& c, const V& v) {
    auto f = std::find(std::begin(c), std::end(c), v);
    if (f == std::end(c)) return false;
    c.erase(f);
    return true;
}
template <typename C, typename P>
bool erase_first_if(C& c, P&& p) {
    auto f = std::find_if(std::begin(c), std::end(c), std::forward<P>(p));
    if (f == std::end(c)) return false;
    c.erase(f);
    return true;
}
template <typename C, typename V>
std::size_t erase_all(C& c, const V& v) {
    auto nb = std::remove(std::begin(c), std::end(c), v);
    auto ret = std::size_t(std::distance(nb, std::end(c)));
    c.erase(nb, std::end(c));
    return ret;
}
template <typename C, typename P>
std::size_t erase_all_if(C& c, P&& p) {
    auto nb = std::remove_if(std::begin(c), std::end(c), std::forward<P>(p));
    auto ret = std::size_t(std::distance(nb, std::end(c)));
    c.erase(nb, std::end(c));
    return ret;
}
}
