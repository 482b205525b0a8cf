#include "label_addressing1_definitions.h"

unsigned int func1(unsigned int idx) {
    void *array[] = {&&A, &&B, &&C, &&D, &&E, &&F, &&G, &&H, &&I, &&J};
    goto *array[idx - 1];

A:
    return 10;
B:
    return 20;
C:
    return 30;
D:
    return 40;
E:
    return 50;
F:
    return 60;
G:
    return 70;
H:
    return 80;
I:
    return 90;
J:
    return 100;
}
