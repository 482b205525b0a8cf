#include <stdarg.h>
struct Sm { int a; }; struct Md { double a; long b; }; struct Lg { long a[5]; }; struct Ld { long double x; };
struct Holder { va_list ap; int n; };
int sink(va_list ap, int n);
int take(va_list *ap);
int use(int n, ...) {
    va_list ap, cp;
    struct Holder h;
    int r = 0;
    va_start(ap, n);
    va_copy(cp, ap);
    va_copy(h.ap, ap);
    r += va_arg(ap, int) + (int) va_arg(ap, double) + (int) va_arg(ap, long double);
    struct Sm s = va_arg(ap, struct Sm);
    struct Md m = va_arg(ap, struct Md);
    struct Lg l = va_arg(ap, struct Lg);
    struct Ld d = va_arg(ap, struct Ld);
    char *p = va_arg(ap, char *);
    r += s.a + (int) m.a + l.a[2] + (int) d.x + *p;
    r += sink(cp, n) + take(&cp) + va_arg(h.ap, int);
    va_end(h.ap); va_end(cp); va_end(ap);
    return r;
}
int call(struct Sm s, struct Md m, struct Lg l, struct Ld d) {
    return use(3, 1, 2.0, 3.0L, s, m, l, d, "x") + use(0) + use(1, 'c', 1.5f, (_Bool) 1);
}
