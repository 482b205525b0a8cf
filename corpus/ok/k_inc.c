#include "pp_a.h"
#include <pp_b.h>
#define HDR "pp_c.h"
#include HDR
int main(void) { return A_VALUE + B_VALUE + c_value(2); }
