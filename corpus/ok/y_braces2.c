struct In { int a; int b; };
struct Out { struct In i; int c; int arr[3]; };
extern int f(int);
int g(int x) {
    struct Out o = { .i = x, .c = 2, .arr = 5 };
    struct In arr[2] = { [1] = x + 1 };
    return o.i.a + o.arr[0] + arr[1].a + ((struct Out){ .i = f(x), .arr = x}).i.a;
}
int main(void){return g(1);}
int f(int x){return x;}
