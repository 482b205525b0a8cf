#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern int long INTEGER, INTEGER2;

long get_one();
long get_two();

#endif
