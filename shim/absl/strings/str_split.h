#ifndef SHIM_ABSL_STR_SPLIT_H
#define SHIM_ABSL_STR_SPLIT_H
#include <string>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/strip.h"
namespace absl {
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
struct ByString { std::string d; explicit ByString(string_view s) : d(s) {} };
struct ByAnyChar { std::string d; explicit ByAnyChar(string_view s) : d(s) {} };
struct ByChar { char d; explicit ByChar(char c) : d(c) {} };
class ShimSplitter {
 public:
  std::string copy; std::vector<std::pair<size_t, size_t>> parts; string_view text;
  std::vector<string_view> views() const { std::vector<string_view> r; for (auto& p : parts) r.push_back(text.substr(p.first, p.second)); return r; }
  template <typename C, typename = typename C::value_type, typename = std::enable_if_t<!std::is_same_v<C, std::string>>>
  operator C() const { C c; for (auto v : views()) c.insert(c.end(), typename C::value_type(v)); return c; }
  template <typename A, typename B> operator std::pair<A, B>() const { auto v = views(); v.resize(2); return {A(v[0]), B(v[1])}; }
  auto begin() const { cache_ = views(); return cache_.begin(); }
  auto end() const { return cache_.end(); }
 private:
  mutable std::vector<string_view> cache_;
};
template <typename P> ShimSplitter ShimSplit(string_view t, string_view d, bool any, P p) {
  ShimSplitter s; s.text = t; size_t pos = 0;
  while (true) {
    size_t e = any ? t.find_first_of(d, pos) : t.find(d, pos);
    string_view part = t.substr(pos, e == t.npos ? t.npos : e - pos);
    if (p(part)) s.parts.emplace_back(pos, part.size());
    if (e == t.npos) break;
    pos = e + (any ? 1 : d.size());
  }
  return s;
}
template <typename P = AllowEmpty> ShimSplitter StrSplit(string_view t, char d, P p = P()) { return ShimSplit(t, string_view(&d, 1), false, p); }
template <typename P = AllowEmpty> ShimSplitter StrSplit(string_view t, string_view d, P p = P()) { return ShimSplit(t, d, false, p); }
template <typename P = AllowEmpty> ShimSplitter StrSplit(string_view t, const char* d, P p = P()) { return ShimSplit(t, d, false, p); }
template <typename P = AllowEmpty> ShimSplitter StrSplit(string_view t, ByString d, P p = P()) { return ShimSplit(t, d.d, false, p); }
template <typename P = AllowEmpty> ShimSplitter StrSplit(string_view t, ByAnyChar d, P p = P()) { return ShimSplit(t, d.d, true, p); }
template <typename P = AllowEmpty> ShimSplitter StrSplit(string_view t, ByChar d, P p = P()) { return ShimSplit(t, string_view(&d.d, 1), false, p); }
}
#endif
