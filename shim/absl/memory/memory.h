#ifndef SHIM_ABSL_MEMORY_H
#define SHIM_ABSL_MEMORY_H
#include <memory>
#include "absl/base/attributes.h"
namespace absl {
using std::make_unique;
template <typename T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
}
#endif
