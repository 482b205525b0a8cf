#include "string_literals_multibyte1_definitions.h"

const char GREETING[] = "Привет, мир!";
