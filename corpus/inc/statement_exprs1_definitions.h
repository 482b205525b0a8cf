#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int eval1(int);
int eval2(int);

#endif
