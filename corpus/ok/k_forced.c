/* ksim:forced ksim:defines */
#define B_VALUE 3
#include "pp_c.h"
#ifdef SIM_DEFINED
int v = SIM_VALUE;
#endif
int w(void) { return c_value(1) + FORCED_SEEN; }
