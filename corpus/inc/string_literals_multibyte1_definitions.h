#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern const char GREETING[];

#endif
