#ifndef SHIM_ABSL_NUMBERS_H
#define SHIM_ABSL_NUMBERS_H
#include <charconv>
#include "absl/strings/ascii.h"
namespace absl {
using std::from_chars; using std::from_chars_result;
template <typename I> bool ShimAtoi(string_view s, I* out, int base) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') s.remove_prefix(1);
  if (base == 16 && s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s.remove_prefix(2);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out, base);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
template <typename I> bool SimpleAtoi(string_view s, I* out) { return ShimAtoi(s, out, 10); }
template <typename I> bool SimpleHexAtoi(string_view s, I* out) { return ShimAtoi(s, out, 16); }
}
#endif
