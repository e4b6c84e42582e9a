#ifndef SHIM_ABSL_INLINED_VECTOR_H
#define SHIM_ABSL_INLINED_VECTOR_H
#include <vector>
#include "absl/base/attributes.h"
namespace absl {
template <typename T, size_t N, typename A = std::allocator<T>>
class InlinedVector : public std::vector<T, A> {
 public:
  using std::vector<T, A>::vector;
  T& back() { assert(!this->empty()); return std::vector<T, A>::back(); }
  const T& back() const { assert(!this->empty()); return std::vector<T, A>::back(); }
  T& front() { assert(!this->empty()); return std::vector<T, A>::front(); }
  void pop_back() { assert(!this->empty()); std::vector<T, A>::pop_back(); }
  T& operator[](size_t i) { assert(i < this->size()); return std::vector<T, A>::operator[](i); }
  const T& operator[](size_t i) const { assert(i < this->size()); return std::vector<T, A>::operator[](i); }
};
template <typename T, size_t N> using FixedArray = std::vector<T>;
}
#endif
