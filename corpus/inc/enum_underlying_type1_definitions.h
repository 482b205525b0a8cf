#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

enum UnsignedEnum { A = 1, B, C = 3000 };

enum SignedEnum { X = -10, Y = 100, Z = -1 };

unsigned int getuint(enum UnsignedEnum);
int getint(enum SignedEnum);

#endif
