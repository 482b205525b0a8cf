#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct S {
    int a;
    union {
        int b;
        float c;
    };
    union {
        long x;
        double y;
        struct {
            char z;
            short Z;
        };
    } d;
};

void *get_a(struct S *);
void *get_b(struct S *);
void *get_c(struct S *);
void *get_d(struct S *);
void *get_x(struct S *);
void *get_y(struct S *);
void *get_z(struct S *);
void *get_Z(struct S *);

#endif
