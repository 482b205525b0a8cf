#include "union_func_args1_definitions.h"

long struct1_calculate(struct Struct1 s) {
    return STRUCT1_CALCULATE(&s);
}