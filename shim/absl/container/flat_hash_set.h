#ifndef SHIM_ABSL_FLAT_HASH_SET_H
#define SHIM_ABSL_FLAT_HASH_SET_H
#include "absl/container/flat_hash_map.h"
namespace absl {
template <typename K, typename...>
class flat_hash_set : public shim_internal::HashTable<K, K, shim_internal::KeySelf> {
  using B = shim_internal::HashTable<K, K, shim_internal::KeySelf>;
 public:
  using B::insert;
  flat_hash_set() = default;
  flat_hash_set(std::initializer_list<K> l) { for (auto& v : l) this->insert(v); }
  template <typename I> flat_hash_set(I a, I b) { this->insert(a, b); }
};
template <typename K, typename... R> using node_hash_set = flat_hash_set<K, R...>;
}
#endif
