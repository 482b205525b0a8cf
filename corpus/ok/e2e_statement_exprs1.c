#include "statement_exprs1_definitions.h"

int eval1(int x) {
    return ({
        int a = x + 1;
        x++;
        int b = x - 1;
        ({ a + b; });
    });
}

int eval2(int l) {
    return l + ({
               long x[l];
               sizeof(x);
           });
}
