#ifndef SHIM_ABSL_CONTAINER_ALG_H
#define SHIM_ABSL_CONTAINER_ALG_H
#include <algorithm>
#include <iterator>
#include <numeric>
namespace absl {
template <typename C, typename P> bool c_all_of(const C& c, P&& p) { return std::all_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool c_any_of(const C& c, P&& p) { return std::any_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool c_none_of(const C& c, P&& p) { return std::none_of(std::begin(c), std::end(c), p); }
template <typename C, typename T> auto c_find(C& c, T&& t) { return std::find(std::begin(c), std::end(c), t); }
template <typename C, typename P> auto c_find_if(C& c, P&& p) { return std::find_if(std::begin(c), std::end(c), p); }
template <typename C, typename T> bool c_linear_search(const C& c, T&& t) { return std::find(std::begin(c), std::end(c), t) != std::end(c); }
template <typename C, typename T> auto c_count(const C& c, T&& t) { return std::count(std::begin(c), std::end(c), t); }
template <typename C, typename P> auto c_count_if(const C& c, P&& p) { return std::count_if(std::begin(c), std::end(c), p); }
template <typename A, typename B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <typename C, typename O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <typename C, typename T> void c_fill(C& c, const T& t) { std::fill(std::begin(c), std::end(c), t); }
template <typename C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <typename C, typename P> void c_sort(C& c, P&& p) { std::sort(std::begin(c), std::end(c), p); }
template <typename C, typename F> F c_for_each(C&& c, F&& f) { return std::for_each(std::begin(c), std::end(c), f); }
template <typename C, typename T> T c_accumulate(const C& c, T t) { return std::accumulate(std::begin(c), std::end(c), t); }
template <typename C, typename T> auto c_upper_bound(C& c, T&& t) { return std::upper_bound(std::begin(c), std::end(c), t); }
template <typename C, typename T> auto c_lower_bound(C& c, T&& t) { return std::lower_bound(std::begin(c), std::end(c), t); }
}
#endif
