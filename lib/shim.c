/* C side helpers which need headers that do not compile as C++. */
#include <stddef.h>
#include "tiny.h"
#include "detail.h"
int shim_field_count(Tiny_Value v) { return v.type == TINY_VAL_STRUCT ? v.obj->ostruct.n : -1; }
