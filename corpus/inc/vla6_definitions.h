#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

void test_vla(int, int);

#endif
