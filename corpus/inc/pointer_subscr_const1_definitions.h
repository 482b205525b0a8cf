#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern int ARRAY[10];

#endif
