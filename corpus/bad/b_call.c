int g(int a, int b); int f(void) { return g(1) + g(1, 2, 3); }
