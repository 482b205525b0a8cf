#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

unsigned int dim1();
unsigned int dim2();
unsigned int dim3();

unsigned int sizeof_float_cube();

#endif
