#include "function_decl_ctx1_definitions.h"

void get_vals(STRUCT1 s, ENUM1 e, int *sz, int *algn, int *b_val) {
    *sz = sizeof(struct Struct1);
    *algn = _Alignof(struct Struct1);
    *b_val = B;
}

int get_inc(int len, int array[len++]) {
    return len;
}
