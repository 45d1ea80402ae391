#define ZV_TYPES_IMPL
#include "types_ops.h"
