#include "long_double2_definitions.h"

long double LAST_VALUE = 0.0L;

long double increment(long double (*generator)()) {
    long double x = generator();
    LAST_VALUE = x;
    return x + 1;
}
