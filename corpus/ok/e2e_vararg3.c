#define INTERNAL
#include "vararg3_definitions.h"

int vzeros(va_list vararg) {
    int count = 0;
    for (int i = va_arg(vararg, int); i == 0; ++count, i = va_arg(vararg, int))
        ;
    return count;
}

int zeros(int arg, ...) {
    (void) arg;

    va_list vararg;
    va_start(vararg, arg);
    int count = vzeros(vararg);
    int next = va_arg(vararg, int);
    va_end(vararg);
    return count + next;
}
