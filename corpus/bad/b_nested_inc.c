#include "bad_a.h"
int after;
