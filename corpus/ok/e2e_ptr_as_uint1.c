#include "ptr_as_uint1_definitions.h"

long long Ptr1 = ((long long) &Value) - 1000;
unsigned long Ptr2 = (unsigned long) (&Value + 245);
long Ptr3 = ((long) &Value) + 2000 - 1;

unsigned long long Str1 = ((unsigned long long) "Hello, cruel world!") - 0x200000ull;