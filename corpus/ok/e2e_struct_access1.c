#include "struct_access1_definitions.h"

void *get_a(struct S *s) {
    return &s->a;
}

void *get_b(struct S *s) {
    return &s->b;
}

void *get_c(struct S *s) {
    return &s->c;
}

void *get_d(struct S *s) {
    return &s->d;
}

void *get_x(struct S *s) {
    return &s->d.x;
}

void *get_y(struct S *s) {
    return &s->d.y;
}

void *get_z(struct S *s) {
    return &s->d.z;
}

void *get_Z(struct S *s) {
    return &s->d.Z;
}
