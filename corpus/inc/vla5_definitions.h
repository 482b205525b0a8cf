#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int test_vla(unsigned long, unsigned long);

#endif
