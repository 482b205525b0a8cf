#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Struct1 {
    char c1;
    char c2;
    short s1;
    int i1;
    int i2;
    int i3;
    union {
        int i4;
        int i5;
        void *w1;
    };
};

#define STRUCT1_CALCULATE(s) ((long) ((s)->c1 + (s)->c2 + (s)->s1 + (s)->i1 + (s)->i2 + (s)->i3 + (s)->i4))
long struct1_calculate(struct Struct1);

#endif
