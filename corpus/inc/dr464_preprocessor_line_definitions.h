#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern const int Lines[4];

#endif
