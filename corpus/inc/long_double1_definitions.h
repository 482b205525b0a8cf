#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

long double hypot_sq(long double, long double);

#endif
