#include <stdarg.h>
struct Big { long a[5]; }; struct Two { double a; long b; }; struct F2 { float x, y; };
long va(int n, ...) {
    va_list l, c; va_start(l, n); va_copy(c, l); long r = 0;
    while (n--) { r += va_arg(l, int); r += (long) va_arg(l, double); r += va_arg(l, char *) != 0; }
    struct Big b = va_arg(c, struct Big); struct Two t = va_arg(c, struct Two); long double ld = va_arg(c, long double);
    va_end(l); va_end(c); return r + b.a[0] + t.b + (long) ld;
}
struct Big mk(struct Two t, struct F2 f, long double l, float q) { struct Big b = {{t.b, (long) f.x, (long) l}}; return b; }
struct F2 mf(struct Big b) { struct F2 f = {b.a[1], b.a[2]}; return f; }
struct Two call(void) { struct Two t = {1.5, 2}; struct F2 f = {1, 2}; struct Big b = mk(t, f, 3.0L, 4.0f); f = mf(b); va(1, 2, 3.0, "x", b, t, 1.0L); t.b = b.a[0] + (int) f.y; return t; }
