#ifndef PP_A
#define PP_A
#include "pp_b.h"
#define A_VALUE (B_VALUE + 1)
typedef struct pp_a { int v; } pp_a;
#endif
