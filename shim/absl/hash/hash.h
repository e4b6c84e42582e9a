#ifndef SHIM_ABSL_HASH_H
#define SHIM_ABSL_HASH_H
#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace absl {
struct ShimHashState {
  uint64_t h = 1469598103934665603ull;
  template <typename... Ts> static ShimHashState combine(ShimHashState s, const Ts&... ts) {
    (s.add(ts), ...); return s; }
  void mix(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
  template <typename T> void add(const T& t) {
    if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) mix(static_cast<uint64_t>(t));
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) mix(std::hash<std::string_view>()(std::string_view(t)));
    else if constexpr (std::is_pointer_v<T>) mix(reinterpret_cast<uintptr_t>(t));
    else addc(t, 0);
  }
  template <typename A, typename B> void addc(const std::pair<A, B>& p, int) { add(p.first); add(p.second); }
  template <typename... A> void addc(const std::tuple<A...>& p, int) { std::apply([this](const auto&... x) { (add(x), ...); }, p); }
  template <typename A> void addc(const std::optional<A>& p, int) { mix(p.has_value()); if (p) add(*p); }
  template <typename A> void addc(const std::vector<A>& p, int) { mix(p.size()); for (auto& x : p) add(x); }
  template <typename T> auto addc(const T& t, int) -> decltype(AbslHashValue(std::declval<ShimHashState>(), t), void()) { *this = AbslHashValue(*this, t); }
  template <typename T> auto addc(const T& t, long) -> decltype(std::hash<T>()(t), void()) { mix(std::hash<T>()(t)); }
};
template <typename T> struct Hash { size_t operator()(const T& t) const { return ShimHashState::combine(ShimHashState(), t).h; } };
template <typename... T> size_t HashOf(const T&... t) { return ShimHashState::combine(ShimHashState(), t...).h; }
// Iteration order of the flat_hash_* stand-ins is a choice the explorer makes:
// 0 = insertion order, 1 = reverse insertion order, 2/3 = by (salted) hash.
inline int& ShimIterationOrder() { static int mode = 0; return mode; }
}
#endif
