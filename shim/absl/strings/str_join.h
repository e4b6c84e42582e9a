#ifndef SHIM_ABSL_STR_JOIN_H
#define SHIM_ABSL_STR_JOIN_H
#include <iterator>
#include "absl/strings/str_cat.h"
namespace absl {
struct ShimAlphaNumFormatter { template <typename T> void operator()(std::string* o, const T& t) const { StrAppend(o, t); } };
inline ShimAlphaNumFormatter AlphaNumFormatter() { return {}; }
template <typename I, typename F> std::string StrJoin(I a, I b, string_view sep, F&& f) {
  std::string r; bool first = true;
  for (; a != b; ++a) { if (!first) r.append(sep); first = false; f(&r, *a); }
  return r; }
template <typename I, typename = std::enable_if_t<!std::is_convertible_v<I, string_view>>, typename = typename std::iterator_traits<I>::value_type>
std::string StrJoin(I a, I b, string_view sep) { return StrJoin(a, b, sep, ShimAlphaNumFormatter()); }
template <typename R, typename F, typename = decltype(std::begin(std::declval<const R&>()))>
std::string StrJoin(const R& r, string_view sep, F&& f) { return StrJoin(std::begin(r), std::end(r), sep, std::forward<F>(f)); }
template <typename R, typename = decltype(std::begin(std::declval<const R&>()))>
std::string StrJoin(const R& r, string_view sep) { return StrJoin(std::begin(r), std::end(r), sep, ShimAlphaNumFormatter()); }
}
#endif
