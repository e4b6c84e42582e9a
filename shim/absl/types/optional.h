#ifndef SHIM_ABSL_TYPES_OPTIONAL_H
#define SHIM_ABSL_TYPES_OPTIONAL_H
#include <optional>
#include "absl/base/attributes.h"
namespace absl {
using std::optional; using std::nullopt; using std::nullopt_t; using std::make_optional;
using std::bad_optional_access; using std::in_place; using std::in_place_t;
}
#endif
