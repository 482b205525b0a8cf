#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

typedef int fn_t();
typedef int fn2_t(int);

int test1();

#endif
