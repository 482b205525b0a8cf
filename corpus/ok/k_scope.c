int x = 1; int f(int x) { { int x = 2; { extern int y; int x = y; x++; } x--; } struct T { int a; } t; { struct T { char b; } t2; t2.b = 1; } enum { L = 4 }; { enum { L = 5 }; static int s = L; s++; } typedef int x_t; x_t z = L; { typedef char x_t; x_t q = 1; z += q; } t.a = z; return t.a + x; }
int y; static int fwd(int); static int st; int g(void) { return fwd(3) + st; } static int fwd(int n) { static int st = 4; return n ? fwd(n - 1) + st : st; }
extern int x, y; int tent; int tent; extern int tent; static int st;
