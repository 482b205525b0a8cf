#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern int Value;

extern long long Ptr1;
extern unsigned long Ptr2;
extern long Ptr3;

extern unsigned long long Str1;

#endif
