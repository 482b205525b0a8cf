#include "anon_nested_struct_init1_definitions.h"

union String STRING = {{{"12345", "6789"}}};

union String init_string(char arr[5]) {
    return (union String){{{{arr[4], arr[3], arr[2], arr[1], arr[0]}, "!!!!"}}};
}
