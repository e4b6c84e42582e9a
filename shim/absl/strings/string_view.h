#ifndef SHIM_ABSL_STRING_VIEW_H
#define SHIM_ABSL_STRING_VIEW_H
#include <string>
#include <string_view>
#include "absl/base/attributes.h"
namespace absl { using std::string_view;
inline string_view ClippedSubstr(string_view s, size_t p, size_t n = string_view::npos) { return s.substr(p < s.size() ? p : s.size(), n); }
}
#endif
