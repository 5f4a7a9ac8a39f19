#include "src/util/v4/v4.h"
#define IRV_N 4
#include "vec.h"
