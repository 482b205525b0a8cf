#include "vla4_definitions.h"

int test_vla(unsigned long count, unsigned long sz) {
    void *ptr = 0;
    do {
        char buf[sz];
        for (unsigned long i = 0; i < count; i++) {
            char array[sz];
            if (ptr != 0 && ptr != array) {
                return 0;
            }
            ptr = array;
            if (((long) ptr) >= ((long) buf)) {
                return 0;
            }
        }
    } while (0);
    return 1;
}
