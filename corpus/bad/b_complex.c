struct S { int x; double _Complex z; }; int f(int a) { return a; }
