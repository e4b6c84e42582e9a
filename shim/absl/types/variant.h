#ifndef SHIM_ABSL_TYPES_VARIANT_H
#define SHIM_ABSL_TYPES_VARIANT_H
#include <variant>
#include "absl/base/attributes.h"
namespace absl {
using std::variant; using std::get; using std::get_if; using std::holds_alternative;
using std::monostate; using std::visit; using std::bad_variant_access; using std::in_place_type;
using std::variant_size; using std::variant_alternative;
}
#endif
