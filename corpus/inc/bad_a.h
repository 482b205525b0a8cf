int from_a;
#include "bad_b.h"
