#include "typedef_diff_definitions.h"

long struct1_diff(const struct Struct2 *x, const Struct1 *y) {
    return x->ptr - y;
}
