#include <stdarg.h>
_Thread_local int shared_tls = 3;
struct VL { int n; va_list ap; };
union UU { long l; double d; char c[24]; };
struct CC { union UU u; char z; };
int take_vl(struct VL v, int k) { return v.n + k; }
struct VL ret_vl(int n, ...) { struct VL v; v.n = n; va_start(v.ap, n); return v; }
union UU pass_u(union UU u, struct CC c, int k) { u.l += c.u.l + k; return u; }
int vsum(int n, ...) {
    va_list ap, cp; va_start(ap, n); va_copy(cp, ap);
    int r = 0;
    while (n--) { struct CC c = va_arg(ap, struct CC); union UU u = va_arg(cp, union UU); r += (int) (c.u.l + u.l); }
    va_end(ap); va_end(cp);
    return r;
}
int local_tls(void) { extern _Thread_local int shared_tls; extern _Thread_local long other_tls[3]; return shared_tls + (int) other_tls[1]; }
static const char *const utf = u8"u8 string"; static const char wide8[] = u8"array";
extern int idx[]; static const struct { const char *s; const char *t; int *p; } ptrs[] = { { "abc", "def" + 1, &idx[2] }, { .t = "x" "y" } };
_Alignas(long) char al1; _Alignas(int) static char al2[3];
int gen(void) { _Alignas(double) char l; long _Alignas(16) m = 4; return _Generic((char) 1, char: 1, default: 2) + _Generic(&l, char *: 4) + sizeof(_Generic(m, long: "abc", default: 0)); }
int addr(int k) { void *p = k ? &&one : &&two; goto *p; one: return 1; two: return 2; }
int idx[sizeof(u8"four") + _Alignof(struct CC)];
