#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern long double LAST_VALUE;

long double increment(long double (*)());

#endif
