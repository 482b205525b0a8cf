#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern struct Structure1 X;
extern struct Structure1 Y;
extern _Thread_local struct Structure1 Z;

void *getx();
void *gety();
void *getz();

#endif
