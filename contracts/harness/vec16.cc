#include "src/util/v16/v16.h"
#define IRV_N 16
#include "vec.h"
