const int c = 1; void f(void) { c = 2; 1 = c; f() = 3; }
