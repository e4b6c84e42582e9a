#ifndef SHIM_ABSL_STR_FORMAT_H
#define SHIM_ABSL_STR_FORMAT_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ostream>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
#include "absl/types/optional.h"
#include "absl/types/span.h"
#include "absl/types/variant.h"
namespace absl {
namespace shim_internal {
template <size_t N> struct FormatSpecN {
  string_view f;
  FormatSpecN(const char* s) : f(s) {}
  FormatSpecN(string_view s) : f(s) {}
  FormatSpecN(const std::string& s) : f(s) {}
};
struct Arg {
  enum K { I, U, S, D, P } k; long long i = 0; unsigned long long u = 0; std::string s; double d = 0; bool is_char = false;
  template <typename T> static Arg Make(const T& t) {
    Arg a;
    if constexpr (std::is_same_v<T, bool>) { a.k = I; a.i = t; a.u = t; }
    else if constexpr (std::is_enum_v<T>) { a.k = I; a.i = static_cast<long long>(t); a.u = static_cast<std::make_unsigned_t<std::underlying_type_t<T>>>(t); }
    else if constexpr (std::is_integral_v<T>) { a.k = std::is_signed_v<T> ? I : U; a.i = static_cast<long long>(t); a.u = static_cast<std::make_unsigned_t<T>>(t); a.is_char = std::is_same_v<T, char>; }
    else if constexpr (std::is_floating_point_v<T>) { a.k = D; a.d = t; }
    else if constexpr (std::is_convertible_v<const T&, string_view>) { a.k = S; a.s = std::string(string_view(t)); }
    else if constexpr (std::is_pointer_v<T>) { a.k = P; a.u = reinterpret_cast<uintptr_t>(t); }
    else static_assert(sizeof(T) == 0, "format argument type not supported");
    return a;
  }
};
inline std::string Format(string_view f, std::vector<Arg> args) {
  std::string out; size_t next = 0, i = 0;
  auto bad = [&](const char* why) { fprintf(stderr, "shim StrFormat: %s in \"%.*s\"\n", why, int(f.size()), f.data()); abort(); };
  while (i < f.size()) {
    if (f[i] != '%') { out.push_back(f[i++]); continue; }
    ++i;
    if (i < f.size() && f[i] == '%') { out.push_back('%'); ++i; continue; }
    std::string flags, spec = "%";
    while (i < f.size() && strchr("-+ #0", f[i])) spec.push_back(f[i++]);
    auto star = [&]() { if (next >= args.size()) bad("too few arguments"); spec += std::to_string(args[next++].i); ++i; };
    if (i < f.size() && f[i] == '*') star();
    while (i < f.size() && f[i] >= '0' && f[i] <= '9') spec.push_back(f[i++]);
    if (i < f.size() && f[i] == '.') { spec.push_back(f[i++]);
      if (i < f.size() && f[i] == '*') star();
      while (i < f.size() && f[i] >= '0' && f[i] <= '9') spec.push_back(f[i++]); }
    while (i < f.size() && strchr("hlzjtqL", f[i])) ++i;
    if (i >= f.size()) bad("truncated conversion");
    char c = f[i++];
    if (next >= args.size()) bad("too few arguments");
    const Arg& a = args[next++];
    auto emit = [&](auto v) { std::string b(64, 0); int n = snprintf(&b[0], b.size(), spec.c_str(), v);
      if (n >= (int)b.size()) { b.resize(n + 1); snprintf(&b[0], b.size(), spec.c_str(), v); } b.resize(n); out += b; };
    if (c == 'v') c = a.k == Arg::S ? 's' : a.k == Arg::D ? 'g' : a.k == Arg::U ? 'u' : 'd';
    switch (c) {
      case 's': if (a.k != Arg::S) bad("%s with a non-string"); spec += 's'; emit(a.s.c_str()); break;
      case 'd': case 'i': if (a.k == Arg::U) { spec += "llu"; emit(a.u); } else if (a.k == Arg::I) { spec += "lld"; emit(a.i); } else bad("%d with a non-integer"); break;
      case 'u': case 'x': case 'X': case 'o': if (a.k != Arg::U && a.k != Arg::I) bad("integer conversion of a non-integer"); spec += "ll"; spec += c; emit(a.u); break;
      case 'c': if (a.k != Arg::U && a.k != Arg::I) bad("%c with a non-integer"); out.push_back(char(a.i)); break;
      case 'f': case 'g': case 'e': if (a.k != Arg::D) bad("float conversion of a non-float"); spec += c; emit(a.d); break;
      case 'p': out += "0x"; spec += "llx"; emit(a.u); break;
      default: bad("unknown conversion");
    }
  }
  if (next != args.size()) bad("too many arguments");
  return out;
}
}  // namespace shim_internal
template <typename... A> using FormatSpec = shim_internal::FormatSpecN<sizeof...(A)>;
template <typename... A> [[nodiscard]] std::string StrFormat(const FormatSpec<A...>& f, const A&... a) {
  return shim_internal::Format(f.f, {shim_internal::Arg::Make<std::decay_t<const A>>(a)...}); }
template <typename... A> std::string& StrAppendFormat(std::string* d, const FormatSpec<A...>& f, const A&... a) { return d->append(StrFormat<A...>(f, a...)); }
template <typename... A> int PrintF(const FormatSpec<A...>& f, const A&... a) { std::string s = StrFormat<A...>(f, a...); return fwrite(s.data(), 1, s.size(), stdout) == s.size() ? int(s.size()) : -1; }
template <typename... A> int FPrintF(FILE* o, const FormatSpec<A...>& f, const A&... a) { std::string s = StrFormat<A...>(f, a...); return fwrite(s.data(), 1, s.size(), o) == s.size() ? int(s.size()) : -1; }
}
#endif
