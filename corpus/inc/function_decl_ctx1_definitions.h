#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

#define STRUCT1      \
    struct Struct1 { \
        int i;       \
        char c;      \
        long l;      \
        float f;     \
    }
#define ENUM1 enum Enum1 { A = 0, B = 1, C = 2 }

int get_inc(int, int[*]);

#endif
