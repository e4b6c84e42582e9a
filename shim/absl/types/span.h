#ifndef SHIM_ABSL_TYPES_SPAN_H
#define SHIM_ABSL_TYPES_SPAN_H
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
#include "absl/base/attributes.h"
namespace absl {
template <typename T>
class Span {
  template <typename C>
  using DataT = std::remove_pointer_t<decltype(std::declval<C&>().data())>;
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*;
  using const_pointer = const T*; using reference = T&; using const_reference = const T&;
  using iterator = T*; using const_iterator = const T*; using size_type = size_t; using difference_type = ptrdiff_t;
  using reverse_iterator = std::reverse_iterator<iterator>;
  static constexpr size_t npos = ~size_t{0};
  constexpr Span() : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <typename C, typename = std::enable_if_t<!std::is_same_v<std::decay_t<C>, Span> &&
      std::is_convertible_v<DataT<C> (*)[], T (*)[]>>>
  constexpr Span(C&& c) : p_(c.data()), n_(c.size()) {}
  template <typename U = T, typename = std::enable_if_t<std::is_const_v<U>>>
  constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { assert(i < n_); return p_[i]; }
  constexpr T& at(size_t i) const { assert(i < n_); return p_[i]; }
  constexpr T& front() const { assert(n_ > 0); return p_[0]; }
  constexpr T& back() const { assert(n_ > 0); return p_[n_ - 1]; }
  constexpr iterator begin() const { return p_; }
  constexpr iterator end() const { return p_ + n_; }
  constexpr const_iterator cbegin() const { return p_; }
  constexpr const_iterator cend() const { return p_ + n_; }
  reverse_iterator rbegin() const { return reverse_iterator(end()); }
  reverse_iterator rend() const { return reverse_iterator(begin()); }
  void remove_prefix(size_t n) { assert(n <= n_); p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { assert(n <= n_); n_ -= n; }
  constexpr Span subspan(size_t pos, size_t len = npos) const {
    assert(pos <= n_); return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t len) const { assert(len <= n_); return Span(p_, len); }
  constexpr Span last(size_t len) const { assert(len <= n_); return Span(p_ + n_ - len, len); }
 private:
  T* p_; size_t n_;
};
template <typename A, typename B> bool SpanEq(Span<A> a, Span<B> b) {
  return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <typename A, typename B> bool operator==(Span<A> a, Span<B> b) { return SpanEq(a, b); }
template <typename A, typename B> bool operator!=(Span<A> a, Span<B> b) { return !SpanEq(a, b); }
template <typename A, typename B> bool operator==(Span<A> a, const std::vector<B>& b) { return SpanEq(a, Span<const B>(b)); }
template <typename A, typename B> bool operator!=(Span<A> a, const std::vector<B>& b) { return !SpanEq(a, Span<const B>(b)); }
#if __cplusplus < 202002L
template <typename A, typename B> bool operator==(const std::vector<B>& b, Span<A> a) { return SpanEq(a, Span<const B>(b)); }
template <typename A, typename B> bool operator!=(const std::vector<B>& b, Span<A> a) { return !SpanEq(a, Span<const B>(b)); }
#endif
template <typename T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <typename T> Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <typename C> auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <typename T> Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <typename C> auto MakeConstSpan(const C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}
#endif
