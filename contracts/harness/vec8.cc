#include "src/util/v8/v8.h"
#define IRV_N 8
#include "vec.h"
