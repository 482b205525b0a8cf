int a;
#include "does_not_exist.h"
int b;
