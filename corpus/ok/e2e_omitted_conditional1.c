#include "omitted_conditional1_definitions.h"

const int ONE = 1 ?: 0;
const int TWO = 0 ?: 2;

int nonzero(int x, int y) {
    return x ?: y;
}
