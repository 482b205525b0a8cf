int f(void){struct S{int a; int :2;} a = {1,2}; return a.a;}
