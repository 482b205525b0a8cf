#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

typedef struct Struct1 Struct1;

struct Struct2 {
    Struct1 *ptr;
};

struct Struct1 {
    long value;
};

long struct1_diff(const struct Struct2 *, const Struct1 *);

#endif
