#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Param1 {
    long double value;
};

struct Param2 {
    long double x;
    long double y;
};

struct Param1 ldneg(struct Param1);
struct Param1 ldsum(struct Param2);

struct Param1 ldvsum(int, ...);
struct Param1 ldvsum2(int, ...);

long double ldunwrap(struct Param1 (*)());

#endif
