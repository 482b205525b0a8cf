#include "identifiers_function_type1_definitions.h"

const volatile fn_t get_integer;
restrict fn2_t inc_integer;

int test1() {
    return inc_integer(get_integer());
}