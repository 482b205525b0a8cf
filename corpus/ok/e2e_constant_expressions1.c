#include "constant_expressions1_definitions.h"

unsigned short X1 = EXPR1;
long long X2 = EXPR2;
unsigned char X3 = EXPR3;
long X4 = EXPR4;
float X5 = EXPR5;
double X6 = EXPR6;
int X7 = EXPR7;
unsigned long X8 = EXPR8;
unsigned long X9 = EXPR9;
