/* ksim:strict */
int f(void) { return undeclared_name + 1; }
