#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct S {
    int a;
    void *b;
    char c[10];
    struct {
        float y;
        long z;
    } x;
};

struct S get_empty_s();

#endif
