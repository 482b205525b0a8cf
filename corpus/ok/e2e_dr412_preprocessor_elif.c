#include "dr412_preprocessor_elif_definitions.h"

#if 1
const int Value = 0x0badbabe;
#elif this is not a valid expression
const int Value = 0;
#elif this is also not a valid expression
const int Value = -100;
#endif
