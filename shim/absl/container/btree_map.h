#ifndef SHIM_ABSL_BTREE_MAP_H
#define SHIM_ABSL_BTREE_MAP_H
#include <map>
#include <set>
namespace absl {
template <typename K, typename V, typename C = std::less<K>> using btree_map = std::map<K, V, C>;
template <typename K, typename C = std::less<K>> using btree_set = std::set<K, C>;
}
#endif
