#ifndef SHIM_ABSL_STR_CAT_H
#define SHIM_ABSL_STR_CAT_H
#include <array>
#include <cstdio>
#include <string>
#include <type_traits>
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8 };
struct Hex { unsigned long long v; int pad; template <typename I> explicit Hex(I i, PadSpec p = kNoPad) : v(static_cast<std::make_unsigned_t<I>>(i)), pad(p) {} };
struct AlphaNum {
  std::string s;
  AlphaNum(const char* c) : s(c ? c : "") {}
  AlphaNum(string_view v) : s(v) {}
  AlphaNum(const std::string& v) : s(v) {}
  AlphaNum(Hex h) { char b[40]; snprintf(b, sizeof b, "%0*llx", h.pad, h.v); s = b; }
  AlphaNum(double d) { char b[64]; snprintf(b, sizeof b, "%g", d); s = b; }
  AlphaNum(float d) : AlphaNum(double(d)) {}
  AlphaNum(bool b) : s(b ? "1" : "0") {}
  template <typename T, typename = std::enable_if_t<(std::is_integral_v<T> && !std::is_same_v<T, char> && !std::is_same_v<T, bool>) || (std::is_enum_v<T> && std::is_convertible_v<T, int>)>>
  AlphaNum(T t) { if constexpr (std::is_enum_v<T>) s = std::to_string(static_cast<long long>(t)); else s = std::to_string(t); }
};
inline std::string StrCat() { return {}; }
template <typename... A> [[nodiscard]] std::string StrCat(const A&... a) { std::string r; (r.append(AlphaNum(a).s), ...); return r; }
template <typename... A> void StrAppend(std::string* d, const A&... a) { std::string r = StrCat(a...); d->append(r); }
}
#endif
