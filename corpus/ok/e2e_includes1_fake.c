#include "includes1_definitions.h"
#include "includes1_realvalue.h"

int getFakeValue() {
    return REALVALUE;
}
