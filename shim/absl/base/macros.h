#include "absl/base/attributes.h"
