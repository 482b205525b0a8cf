struct A { int x; } a; struct B { int y; } b; struct A f(void) { return b; } int g(void) { a = b; return &a; }
