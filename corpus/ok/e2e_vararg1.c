#define INTERNAL
#include "vararg1_definitions.h"

int vsumall(int count, va_list vararg) {
    int sum = 0;
    while (count--) {
        int arg = va_arg(vararg, int);
        sum += arg;
    }
    return sum;
}

int sumall(int count, ...) {
    va_list vararg, vararg2;
    va_start(vararg, count);
    va_copy(vararg2, vararg);
    va_end(vararg);
    int sum = vsumall(count, vararg2);
    va_end(vararg2);
    return sum;
}
