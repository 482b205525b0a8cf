#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

void setx(int);
int getx();

#endif
