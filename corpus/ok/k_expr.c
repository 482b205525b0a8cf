typedef unsigned long size_t;
struct P { int x, y; struct { char c; double d; } in; };
static int arr[4] = {1, 2, 3};
int ops(int a, unsigned b, long c, char d) {
    int r = a + b - c * d / (a | 1) % 7;
    r <<= 2; r >>= 1; r &= 0xff; r |= 0x10; r ^= 3;
    r += a; r -= b; r *= 2; r /= 3; r %= 100;
    r = a < b ? a <= c : a > d ? a >= b : a == c != d;
    r = a && b || c && !d;
    r = ~a & b ^ c | d;
    r = (a, b, c);
    r += a++ + ++a - b-- - --b;
    return -r + +a;
}
double flt(float f, double d, long double l) {
    float g = f * 2.5f; d += g / 3.0; l -= d;
    if (f < d || d >= l) return (double) l;
    return (int) f + (float) d + (unsigned char) l + !f;
}
size_t sz(struct P *p) {
    p->x = (*p).y; p[1].in.c = 'a'; p->in.d = 1e3;
    return sizeof(struct P) + sizeof *p + _Alignof(double) + sizeof(int[3]) + sizeof arr / sizeof arr[0];
}
int *ptrs(int *p, int n) { int *q = &p[n]; q += 2; q--; if (q - p > 3 && q != p) return q; return (int *) 0; }
