#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern const int ONE;
extern const int TWO;

int nonzero(int, int);

#endif
