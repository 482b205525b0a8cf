#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern int sum3(int, int, int);

#endif
