#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int getValue();
int getFakeValue();
int getAnotherFakeValue();

#endif
