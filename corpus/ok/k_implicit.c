f(a) int a; { return undeclared_g(a, 1); }
struct P { int x, y; } p = {x: 1, y: 2};
int *q; int h(void *v) { q = v; q = (int *) 5; return q != 0; }
