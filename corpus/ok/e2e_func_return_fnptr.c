#include "func_return_fnptr_definitions.h"

static int get_one(void) {
    return 1;
}

static int get_zero(void) {
    return 0;
}

static int get_neg(void) {
    return -1;
}

int (*getfn(enum FnType tp))(void) {
    switch (tp) {
        case FNONE:
            return get_one;

        case FNNEG:
            return get_neg;

        default:
            return get_zero;
    }
}
