#include "vla5_definitions.h"

int test_vla(unsigned long count, unsigned long sz) {
    void *ptr = 0;
    while (1) {
        char buf[sz];
        while (1) {
            while (1) {
                char buf2[sz];
                if (count-- == 0) {
                    goto end_of_outer_loop;
                } else {
                    break;
                }
            }
            char array[sz];
            if (ptr != 0 && ptr != array) {
                return 0;
            }
            ptr = array;
            goto end_of_inner_loop;
        }
    end_of_inner_loop:
        continue;
    }
end_of_outer_loop:
    return 1;
}
