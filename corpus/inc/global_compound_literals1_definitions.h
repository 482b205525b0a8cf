#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Struct1 {
    int x;
    long y;
    float z;
};

struct Struct2 {
    double a;
    char b;
};

extern struct Struct1 *S1;
extern struct Struct1 *S2;
extern struct Struct2 *S3;

#endif
