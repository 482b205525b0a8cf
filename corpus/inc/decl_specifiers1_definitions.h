#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern struct Structure1 {
    struct StructX {
        int a;
        long b;
    } x, y[2];
} STRUCT1, *STRUCT2;

#endif
