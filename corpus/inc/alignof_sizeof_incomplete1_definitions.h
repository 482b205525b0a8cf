#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

typedef struct S S_t;
#define STRUCT_S    \
    struct S {      \
        char a[24]; \
        long b;     \
        int c;      \
        double d;   \
        char e;     \
        float f;    \
    }

extern const S_t S_Instance;
extern const unsigned int AlignmentX[2];
extern const unsigned int SizeofX[2];

extern unsigned int AlignmentOfX(int);
extern unsigned int SizeOfX(int);

#endif
