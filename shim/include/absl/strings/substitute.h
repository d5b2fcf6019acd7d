#include "absl_shim.h"
