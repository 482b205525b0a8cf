#include "vla6_definitions.h"

void test_vla(int iterations, int maxlen) {
    int n = 1;
    int array[maxlen];
preloop1:
    if (n != iterations) {
        goto loop1;
    } else {
        long array2[maxlen];
        return;
    }
loop1:;
    int length = n % maxlen + 1;
    char buffer[length];
    for (int i = 0; i < length; i++) {
        buffer[i] = (char) i;
    }

    if (n == iterations) {
        goto exit_loop;
    } else {
        n++;
    }

    goto loop1;

exit_loop:
    goto preloop1;
}
