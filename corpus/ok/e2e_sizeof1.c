#include "sizeof1_definitions.h"

extern const unsigned long MATRIX_ALIGN = _Alignof(double[matrix_dim()][matrix_dim()]);

unsigned long int_vla_sizeof(unsigned long length) {
    return sizeof(int[length]);
}

unsigned long double_matrix_sizeof(unsigned long length) {
    typedef double matrix_row_t[matrix_dim()];
    return sizeof(matrix_row_t[length]);
}

unsigned long short_cube_alignment(unsigned long x, unsigned long y, unsigned long z) {
    return _Alignof(short[x][y][z]);
}
