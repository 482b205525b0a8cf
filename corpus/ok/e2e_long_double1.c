#include "long_double1_definitions.h"

long double hypot_sq(long double x, long double y) {
    return x * x + y * y;
}
