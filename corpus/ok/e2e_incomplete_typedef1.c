#include "incomplete_typedef1_definitions.h"

typedef struct container container_t;
container_t X;

struct container {
    int value;
};

void setx(int v) {
    X.value = v;
}

int getx() {
    return X.value;
}
