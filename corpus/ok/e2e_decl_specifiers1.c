#include "decl_specifiers1_definitions.h"

struct Structure1 STRUCT1 = {.x.a = 1, .x.b = 2, .y = {3, 4, 5, 6}};

struct Structure1 *STRUCT2 = &STRUCT1;
