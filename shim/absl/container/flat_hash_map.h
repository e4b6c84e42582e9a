#ifndef SHIM_ABSL_FLAT_HASH_MAP_H
#define SHIM_ABSL_FLAT_HASH_MAP_H
#include <cassert>
#include <initializer_list>
#include <list>
#include <stdexcept>
#include <unordered_map>
#include "absl/base/attributes.h"
#include "absl/hash/hash.h"
namespace absl {
namespace shim_internal {
struct KeyOfPair { template <typename P> const auto& operator()(const P& p) const { return p.first; } };
struct KeySelf { template <typename P> const P& operator()(const P& p) const { return p; } };
template <typename K, typename V, typename KeyOf>
class HashTable {
 protected:
  using L = std::list<V>;
 public:
  using key_type = K; using value_type = V; using size_type = size_t;
  using iterator = typename L::iterator; using const_iterator = typename L::const_iterator;
  using reference = V&; using const_reference = const V&; using difference_type = ptrdiff_t;
  HashTable() = default;
  HashTable(const HashTable& r) { for (auto& v : r.l_) raw_append(V(v)); }
  HashTable(HashTable&& r) noexcept : l_(std::move(r.l_)), x_(std::move(r.x_)) { r.l_.clear(); r.x_.clear(); }
  HashTable& operator=(const HashTable& r) { if (this != &r) { clear(); for (auto& v : r.l_) raw_append(V(v)); } return *this; }
  HashTable& operator=(HashTable&& r) noexcept { l_ = std::move(r.l_); x_ = std::move(r.x_); r.l_.clear(); r.x_.clear(); return *this; }
  iterator begin() { return l_.begin(); }
  iterator end() { return l_.end(); }
  const_iterator begin() const { return l_.begin(); }
  const_iterator end() const { return l_.end(); }
  const_iterator cbegin() const { return l_.begin(); }
  const_iterator cend() const { return l_.end(); }
  bool empty() const { return l_.empty(); }
  size_t size() const { return l_.size(); }
  void clear() { l_.clear(); x_.clear(); }
  void reserve(size_t) {}
  template <typename Q> const_iterator find(const Q& q) const { return const_cast<HashTable*>(this)->find(q); }
  template <typename Q> iterator find(const Q& q) {
    auto r = x_.equal_range(hash(q));
    for (auto i = r.first; i != r.second; ++i) if (KeyOf()(*i->second) == q) return i->second;
    return l_.end();
  }
  template <typename Q> bool contains(const Q& q) const { return find(q) != end(); }
  template <typename Q> size_t count(const Q& q) const { return contains(q) ? 1 : 0; }
  iterator erase(const_iterator it) {
    auto r = x_.equal_range(hash(KeyOf()(*it)));
    for (auto i = r.first; i != r.second; ++i) if (const_iterator(i->second) == it) { x_.erase(i); break; }
    return l_.erase(it);
  }
  iterator erase(iterator it) { return erase(const_iterator(it)); }
  template <typename Q, typename = std::enable_if_t<!std::is_convertible_v<const Q&, const_iterator>>>
  size_t erase(const Q& q) { auto it = find(q); if (it == l_.end()) return 0; erase(it); return 1; }
  std::pair<iterator, bool> insert(V&& v) { return do_insert(std::move(v)); }
  std::pair<iterator, bool> insert(const V& v) { return do_insert(V(v)); }
  template <typename I> void insert(I a, I b) { for (; a != b; ++a) do_insert(V(*a)); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return do_insert(V(std::forward<A>(a)...)); }
  void swap(HashTable& o) { l_.swap(o.l_); x_.swap(o.x_); }
  friend bool operator==(const HashTable& a, const HashTable& b) {
    if (a.size() != b.size()) return false;
    for (auto& v : a) { auto it = b.find(KeyOf()(v)); if (it == b.end() || !(*it == v)) return false; }
    return true;
  }
 protected:
  template <typename Q> static size_t hash(const Q& q) { return ShimHashState::combine(ShimHashState(), q).h; }
  std::pair<iterator, bool> do_insert(V&& v) {
    auto it = find(KeyOf()(v));
    if (it != l_.end()) return {it, false};
    return {raw_append(std::move(v)), true};
  }
  iterator raw_append(V&& v) {
    size_t h = hash(KeyOf()(v));
    iterator where = l_.end();
    int mode = ShimIterationOrder();
    if (mode == 1) where = l_.begin();
    else if (mode >= 2) {
      auto salt = [mode](size_t x) { return mode == 2 ? x * 0x9E3779B97F4A7C15ull : ~(x * 0xC2B2AE3D27D4EB4Full); };
      for (where = l_.begin(); where != l_.end(); ++where) if (salt(hash(KeyOf()(*where))) > salt(h)) break;
    }
    iterator it = l_.insert(where, std::move(v));
    x_.emplace(h, it);
    return it;
  }
  L l_;
  std::unordered_multimap<size_t, iterator> x_;
};
}  // namespace shim_internal
template <typename K, typename M, typename...>
class flat_hash_map : public shim_internal::HashTable<K, std::pair<const K, M>, shim_internal::KeyOfPair> {
  using B = shim_internal::HashTable<K, std::pair<const K, M>, shim_internal::KeyOfPair>;
 public:
  using mapped_type = M; using typename B::iterator; using typename B::value_type; using B::insert;
  flat_hash_map() = default;
  flat_hash_map(std::initializer_list<value_type> l) { for (auto& v : l) this->insert(v); }
  template <typename I> flat_hash_map(I a, I b) { this->insert(a, b); }
  template <typename Q> M& operator[](Q&& q) {
    auto it = this->find(q);
    if (it != this->end()) return it->second;
    return this->do_insert(value_type(K(std::forward<Q>(q)), M())).first->second;
  }
  M& operator[](const K& q) {
    auto it = this->find(q);
    if (it != this->end()) return it->second;
    return this->do_insert(value_type(q, M())).first->second;
  }
  template <typename Q> M& at(const Q& q) { auto it = this->find(q); if (it == this->end()) throw std::out_of_range("at"); return it->second; }
  template <typename Q> const M& at(const Q& q) const { auto it = this->find(q); if (it == this->end()) throw std::out_of_range("at"); return it->second; }
  template <typename Q, typename... A> std::pair<iterator, bool> try_emplace(Q&& q, A&&... a) {
    auto it = this->find(q);
    if (it != this->end()) return {it, false};
    return this->do_insert(value_type(K(std::forward<Q>(q)), M(std::forward<A>(a)...)));
  }
  template <typename Q, typename W> std::pair<iterator, bool> insert_or_assign(Q&& q, W&& w) {
    auto it = this->find(q);
    if (it != this->end()) { it->second = std::forward<W>(w); return {it, false}; }
    return this->do_insert(value_type(K(std::forward<Q>(q)), M(std::forward<W>(w))));
  }
};
template <typename K, typename M, typename... R> using node_hash_map = flat_hash_map<K, M, R...>;
}
#endif
