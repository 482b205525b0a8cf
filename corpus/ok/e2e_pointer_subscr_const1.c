#include "pointer_subscr_const1_definitions.h"

#define BASE 100

int ARRAY[10] = {
    (int) (&((int *) BASE)[0]), (int) (&((int *) BASE)[1]), (int) (&((int *) BASE)[2]), (int) (&((int *) BASE)[3]),
    (int) (&((int *) BASE)[4]), (int) (&((int *) BASE)[5]), (int) (&((int *) BASE)[6]), (int) (&((int *) BASE)[7]),
    (int) (&((int *) BASE)[8]), (int) (&((int *) BASE)[9]),
};
