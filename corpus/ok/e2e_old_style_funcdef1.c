#include "old_style_funcdef1_definitions.h"

int sum3(a, b, c)
int a;
int b, c;
{ return a + b + c; }
