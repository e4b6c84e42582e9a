#ifndef SHIM_ABSL_BASE_ATTRIBUTES_H
#define SHIM_ABSL_BASE_ATTRIBUTES_H
// Minimal std-only stand-in for the Abseil headers nsasm uses, so that every
// file of the repository compiles here (the system Abseil is too old).
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iosfwd>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define ABSL_MUST_USE_RESULT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_ATTRIBUTE_UNUSED [[maybe_unused]]
#define ABSL_CONST_INIT
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_ASSERT(x) assert(x)
#define ABSL_HARDENING_ASSERT(x) assert(x)
#endif
