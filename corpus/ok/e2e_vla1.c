#include "vla1_definitions.h"

unsigned int int_at(unsigned int x, unsigned int idx) {
    unsigned int array[x];
    if (((unsigned long) array) % _Alignof(int) != 0) {
        return 0;
    }

    for (unsigned int i = 0; i < x; i++) {
        array[i] = i + 1;
    }

    void *(*callback_trigger)[(callback1(x), 1)][(callback2(idx), 1)];
    if (idx < x) {
        return array[idx];
    } else {
        return 0;
    }
}
