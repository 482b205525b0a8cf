#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int sum(int, int);

#endif
