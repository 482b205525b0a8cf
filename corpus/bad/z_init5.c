struct T {int a;} t; struct S {}; void f(void){struct S a[] = {t};}
