#include "absl/container/inlined_vector.h"
