#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int test(int);

#endif
