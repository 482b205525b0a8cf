#include "sum1_definitions.h"

int sum(int a, int b) {
    return a + b;
}
