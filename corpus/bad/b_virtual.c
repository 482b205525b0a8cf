/* ksim:virtual */
#include "virt/c.h"
#include "virt/missing.h"
