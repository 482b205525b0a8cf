union {int : 3; int b;} x = {.b = 1};
struct { struct {}; int b;} y = {.b=1};
struct S{}; struct S a[] = {{}, {}};
struct {struct S s; int x;} c = {1};
struct S d[3]= {[1]={}};
struct S e = {1};
#define SELF SELF + 1
#if SELF == 1
int ok;
#endif
