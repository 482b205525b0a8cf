int f(int a) { int a1; char a1; return a; }
