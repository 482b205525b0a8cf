#include "int_cast1_definitions.h"

long cast_uchar(long x) {
    return (unsigned char) x;
}

long cast_char(long x) {
    return (char) x;
}

long cast_ushort(long x) {
    return (unsigned short) x;
}

long cast_short(long x) {
    return (short) x;
}

long cast_uint(long x) {
    return (unsigned int) x;
}

long cast_int(long x) {
    return (int) x;
}
