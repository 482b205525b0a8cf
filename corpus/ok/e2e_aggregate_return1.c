#include "aggregate_return1_definitions.h"

struct Structure1 {
    int value;
};

struct Structure1 zero() {
    return (struct Structure1){0};
}

struct Structure1 one() {
    return (struct Structure1){1};
}

int test(int x) {
    struct Structure1 s1 = {.value = x};
    *(one(), &s1) = zero();
    return s1.value == 0;
}
