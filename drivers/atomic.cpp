#define ZV_ATOMIC_IMPL
#include "atomic_ops.h"
