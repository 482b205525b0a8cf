#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern const int Value;

#endif
