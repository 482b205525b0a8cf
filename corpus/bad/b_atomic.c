static int g(int * restrict p) { return *p; } int h(void) { int * _Atomic const q = 0; return g(q); }
