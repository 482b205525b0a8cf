#include "incomplete_externals1_definitions.h"

void *getx() {
    return &X;
}

void *gety() {
    return &Y;
}

void *getz() {
    return &Z;
}
