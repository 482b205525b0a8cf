#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

enum FnType { FNZERO = 0, FNONE = 1, FNNEG = -1 };

int (*getfn(enum FnType))(void);

#endif
