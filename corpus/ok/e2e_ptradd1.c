#include "ptradd1_definitions.h"

int *ptradd(struct Struct1 *s, int off) {
    return s->arr + off;
}
