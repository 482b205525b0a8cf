#include "anonymous_bitfields1_definitions.h"

struct Structure1 S1 = {40, 30, 20, 10};

struct Structure1 fills(int x) {
    return (struct Structure1){x + 3, x + 2, x + 1, x};
}
