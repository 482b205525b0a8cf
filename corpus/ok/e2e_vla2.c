#include "vla2_definitions.h"

unsigned int sizeof_float_cube() {
    float cube[dim1()][dim2()][dim3()];
    return sizeof(cube);
}
