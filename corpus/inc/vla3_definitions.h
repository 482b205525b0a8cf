#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int callback1();
long callback2();

void run_callbacks(int[*], char[*], double (*)[*]);
void run_callbacks2();

#endif
