#include "initializer_list1_definitions.h"

struct S get_empty_s() {
    return (struct S){};
}
