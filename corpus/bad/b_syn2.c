int f(void) { if (1 return 2; for (;; { } }
struct S { int a; 
