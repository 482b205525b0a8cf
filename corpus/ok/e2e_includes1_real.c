#include "includes1_definitions.h"
#include "subdir/include1.h"

int getValue() {
    return REALVALUE;
}
