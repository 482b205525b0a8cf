#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern const unsigned long MATRIX_ALIGN;

unsigned long matrix_dim();

unsigned long int_vla_sizeof(unsigned long);
unsigned long double_matrix_sizeof(unsigned long);
unsigned long short_cube_alignment(unsigned long, unsigned long, unsigned long);

#endif
