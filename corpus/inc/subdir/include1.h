#ifndef USE_SYSTEM_INCLUDE
#include "realvalue.h"
#else
#include <realvalue.h>
#endif
