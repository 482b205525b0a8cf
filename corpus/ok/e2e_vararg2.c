#define INTERNAL
#include "vararg2_definitions.h"

void printf(const char *, ...);

double vsumall(int count, va_list vararg) {
    double sum = 0;
    while (count--) {
        double arg = va_arg(vararg, double);
        sum += arg;
    }
    return sum;
}

double sumall(int count, ...) {
    va_list vararg, vararg2;
    va_start(vararg, count);
    va_copy(vararg2, vararg);
    va_end(vararg);
    double sum = vsumall(count, vararg2);
    va_end(vararg2);
    return sum;
}
