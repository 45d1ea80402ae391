#define ZV_HELPERS_IMPL
#include "helpers_ops.h"
