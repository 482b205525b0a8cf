enum E { A = sizeof(int) + 1, B = A << 2, C = (A > 2 ? 7 : 9) };
struct S {
    unsigned x : (sizeof(int) > 2 ? 3 : 4) + 0, y : C & 7, : 0, z : 5;
    _Static_assert(sizeof(int) == 4, "in a structure");
    _Alignas(2 * sizeof(long)) char al;
    _Alignas(double) char ald;
    union { enum { X1 = 4, X2 = X1 + 3 } e; struct { int deep[X2 + 1]; } s; };
    int (*fn)(struct T { int m[B]; } *, int[X2], char (*)[3]);
} s1, *s2;
static const struct S table[3] = {{.x = 1, .e = X2}, [2] = {1, 2, .s.deep[3] = 4}};
int *pp = &s1.s.deep[2], *pq = (int *) &s1.al;
struct S *ps = &s1;
char *ca = &((struct S *) 0)->al;
int use(const int arr[static 3], int brr[const 4], int n, int vla[static n], int star[*]);
int fn(register int a, int n, int v[static restrict n], int w[const]) {
    register int r = a;
    auto long q = r;
    extern int ef(int), ev;
    int lf(double);
    return ef(r) + ev + lf(1.0) + (int) q + v[0] + w[1];
}
extern _Thread_local int tx;
_Thread_local struct S ts = {.z = 3};
static _Thread_local long tl[4] = {1, [3] = 2};
int tls(void) {
    static _Thread_local int st = 4;
    return tx + ts.z + tl[1] + st;
}
union U;
union U *up;
union U { int i; float f; };
enum F { FA };
extern enum F ef1; extern enum F ef1;
extern union U eu; extern union U eu;
struct H { struct S inner; int tail; };
int agg(struct S v, union U u) {
    struct S loc = v;
    struct H h = {v, 4}, h2 = {.inner = loc, .tail = 5}, h3[2] = {{loc, 1}, [1].inner = v};
    union U w = u, ws[2] = {u, w};
    return h.tail + h2.tail + h3[1].tail + ws[0].i;
}
