#include "quipper/perf_reader.h"
