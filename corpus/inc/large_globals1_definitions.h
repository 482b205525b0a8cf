#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Struct1 {
    int x;
    int y;
    int z;
};

extern struct Struct1 Array[10000];
extern struct Struct1 Array2[20000];

#endif
