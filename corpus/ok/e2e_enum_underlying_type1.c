#include "enum_underlying_type1_definitions.h"

static unsigned int deref_uint(unsigned int *ptr) {
    return *ptr;
}

static int deref_int(int *ptr) {
    return *ptr;
}

unsigned int getuint(enum UnsignedEnum e) {
    return deref_uint(&e);
}

int getint(enum SignedEnum e) {
    return deref_int(&e);
}
