#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

unsigned int func1(unsigned int);

#endif
