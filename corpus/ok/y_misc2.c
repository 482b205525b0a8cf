#pragma something here
struct hv { int a; __builtin_va_list l; char z; };
static __builtin_va_list sg;
static struct hv shv;
_Thread_local __builtin_va_list tg;
int vl_arg(int n, __builtin_va_list l) { return n + __builtin_va_arg(l, int); }
struct hv vl_ret(struct hv *h) { return *h; }
int vl_struct(struct hv h, int k) { return h.a + h.z + k; }
int vl_call(int n, ...) {
    __builtin_va_list ap;
    struct hv h;
    int r;
    __builtin_va_start(ap, n);
    r = vl_arg(1, ap);
    __builtin_va_copy(h.l, ap);
    __builtin_va_copy(sg, ap);
    r += vl_struct(h, 3) + vl_ret(&h).a;
    r += __builtin_va_arg(ap, struct hv).a;
    __builtin_va_end(ap);
    return r;
}
#pragma once_more
int lab(int n) {
    void *tab[2]; tab[0] = &&one; tab[1] = &&two;
    char v[4];
    int c = _Generic(n, int: 1, default: 2) + ({ int q = n; q * 2; });
    while (n-- > 0) c++;
    goto *tab[n & 1];
one: c++;
two: return c + sizeof v;
}
int ini(void) { struct { struct { int a, b; } x; int y; } q = {1, 2, 3}, r = {.x.b = 2, 5}; union { int a[2]; long l; } u = {1}; int m[2][2] = {1, 2, 3}; return q.y + r.y + u.a[0] + m[1][0]; }
