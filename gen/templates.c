//// ints
static @I@ N(g)(@I@ a, @I@ b) { return (a ^ b) + (a & @C@) - (b | @C@); }
u64 ENTRY(struct env *e, u64 s) {
    @I@ a = (@I@) s, b = (@I@) (s >> 7); u64 r = 0;
    for (int i = 0; i < @N@; i++) { @I@ c = N(g)(a, b); r = r * 31 + (u64) (c / (b | 1)) + (u64) (c % (@I@) 7); e->w[i & 31] += (int) c; a = b + i; b = c; r ^= r >> 3; }
    e->l[1] = (i64) r; return r + (a < b) + (a == b) * 2 + (a >= b) * 4 + !a;
}
//// floats
static @F@ N(g)(@F@ a, float b, double c, long double d) { return (@F@) (a * b - c / d); }
u64 ENTRY(struct env *e, u64 s) {
    @F@ x = (@F@) (s & 1023) / 7, y = 1; int n = 0;
    for (int i = 1; i < @N@; i++) { y = N(g)(x, (float) i, y + i, (long double) (i + 1)); e->d[i & 15] += (double) y; e->f[i & 15] = (float) -y; if (y > x) n++; else if (y == x) n += 16; x += (@F@) 1.5; n += (int) (y * 4) & 7; }
    return (u64) n * 3 + (u64) (i64) (y * 100) % 100000 + (u64) (x < y);
}
//// longdouble
static long double N(p)(long double x, int n) { return n <= 0 ? 1.0L : x * N(p)(x, n - 1); }
u64 ENTRY(struct env *e, u64 s) {
    long double a = (long double) (s & 255) + 0.5L, b = 3; long double arr[3] = { a, b, a - b };
    for (int i = 0; i < 4; i++) { arr[i % 3] = N(p)(arr[(i + 1) % 3] / 16, i) + (long double) (int) arr[i % 3]; e->l[i] += (long) arr[i % 3]; }
    u64 q = (u64) (arr[0] < arr[1]) + 2 * (arr[1] == arr[2]) + 4 * (arr[2] >= arr[0]); if (arr[0]) q += 8; if (!arr[1]) q += 16;
    e->d[3] = (double) -arr[2]; e->f[2] = (float) arr[1]; return q + (u64) (unsigned) (int) (arr[0] + arr[1]);
}
//// recursion
static u64 N(fib)(u64 n, struct env *e) { if (n < 2) return n + @C@; e->l[n & 31] += 1; return N(fib)(n - 1, e) + N(fib)(n - 2, e); }
u64 ENTRY(struct env *e, u64 s) { return N(fib)(4 + s % 3, e) ^ s; }
//// structs
struct N(t) { @I@ a; char pad[@N@]; double d; struct { short x, y; } in[2]; };
static struct N(t) N(mk)(u64 s) { struct N(t) r = { .a = (@I@) s, .pad = { 1, 2, 3 }, .d = 2.5, .in = { { 1, 2 }, { .y = 7 } } }; r.pad[2] += (char) s; r.in[1].x = (short) (s >> 4); return r; }
static i64 N(use)(struct N(t) v, int k, struct N(t) w) { v.a += w.a; v.in[0].x++; return (i64) v.a + v.pad[2] * k + w.pad[1] + (i64) (v.d * 4) + v.in[1].x - w.in[1].y; }
u64 ENTRY(struct env *e, u64 s) {
    struct N(t) q[2]; q[0] = N(mk)(s); q[1] = N(mk)(s * 3); struct N(t) z = q[s & 1]; i64 r = N(use)(q[0], 3, z);
    r += N(use)(N(mk)(s + 5), 2, N(mk)(s ^ 9)); q[1] = q[0]; e->w[3] = (int) r; e->l[2] += N(use)(q[1], 1, q[0]); return (u64) r;
}
//// smallstructs
struct N(a) { int x; char y; }; struct N(b) { float x, y; }; struct N(c) { double x; long y; }; struct N(d) { char x[3]; }; struct N(f) { float x; int y; float z; };
static struct N(a) N(fa)(struct N(a) v) { v.x += v.y; v.y = (char) v.x; return v; }
static struct N(b) N(fb)(struct N(b) v, struct N(a) w) { v.x += v.y * (float) w.x; v.y = v.x - 1; return v; }
static struct N(c) N(fc)(struct N(b) p, struct N(c) v, struct N(d) q) { v.x += p.x + q.x[1]; v.y += (long) v.x + q.x[2]; return v; }
static struct N(d) N(fd)(struct N(d) v) { v.x[0] += v.x[2]; v.x[1] ^= v.x[0]; return v; }
static struct N(f) N(ff)(struct N(f) v, int a, double b, struct N(f) w) { v.x += w.z + (float) b; v.y -= w.y * a; v.z = w.x; return v; }
u64 ENTRY(struct env *e, u64 s) {
    struct N(a) a = { (int) s, 3 }; struct N(b) b = { 1.5f, (float) (s & 15) }; struct N(c) c = { 2, 4 }; struct N(d) d = { { 1, 2, (char) s } }; struct N(f) f = { 1, 2, 3 };
    u64 r = 0;
    for (int i = 0; i < 3; i++) { a = N(fa)(a); b = N(fb)(b, N(fa)(a)); if (b.x > 100000.f || b.x < -100000.f) b.x = 1; if (b.y > 100000.f || b.y < -100000.f) b.y = 1; c = N(fc)(b, c, N(fd)(d)); if (c.x > 1e9 || c.x < -1e9) c.x = 0; d = N(fd)(d); f = N(ff)(f, i, c.x, f); if (f.x > 1e6f || f.x < -1e6f) f.x = 2; r = r * 7 + (u64) c.y + d.x[1] + (u64) f.y; e->f[i] = b.x; e->d[i] = c.x; }
    return r + (u64) a.x;
}
//// bigreturn
struct N(t) { @I@ v[@M@]; int tag; };
static struct N(t) N(mk)(u64 s, int n) { struct N(t) r; for (int i = 0; i < @M@; i++) r.v[i] = (@I@) (s * (u64) (i + n)); r.tag = n; return r; }
static struct N(t) N(pass)(struct N(t) x) { x.v[1] += 1; x.tag ^= 5; return x; }
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0; struct N(t) a = N(pass)(N(pass)(N(mk)(s, 3)));
    for (int i = 0; i < @M@; i++) r = r * 13 + (u64) a.v[i]; e->w[0] += a.tag; e->l[0] = (long) N(mk)(s, 2).v[@M@ - 1]; return r + (u64) N(pass)(a).tag;
}
//// varargs
static i64 N(sum)(const char *fmt, ...) {
    va_list a; va_start(a, fmt); i64 r = 0;
    for (; *fmt; fmt++) switch (*fmt) {
        case 'i': r = r * 3 + va_arg(a, int); break;
        case 'l': r = r * 3 + va_arg(a, long); break;
        case 'd': r = r * 3 + (i64) (va_arg(a, double) * 8); break;
        case 'p': r += *va_arg(a, int *); break;
        case 'D': r = r * 3 + (i64) (va_arg(a, long double) * 2); break;
        default: r--; break;
    }
    va_end(a); return r;
}
u64 ENTRY(struct env *e, u64 s) {
    int z = (int) (s & 0xff);
    i64 r = N(sum)("ildpldlil", z, (long) s, (double) z / 2, &z, 7L, 1.25, (long) (s >> 3), 4, 5L);
    r ^= N(sum)("dddddddddddi", 1., 2., 3., (double) z, 5., 6., 7., 8., 9., 10., 11., z);
    r ^= N(sum)("iDidDl", z, (long double) z, 2, 3.5, 9.5L, 1L); e->l[9] = r; return (u64) r;
}
//// vastruct
struct N(v) { long a; int b; }; struct N(w) { double a; float b; }; struct N(x) { long a[3]; }; struct N(y) { double d; long l; };
static i64 N(vf)(int n, va_list a) {
    i64 r = 0;
    while (n--) { struct N(v) v = va_arg(a, struct N(v)); struct N(w) w = va_arg(a, struct N(w)); struct N(x) x = va_arg(a, struct N(x)); struct N(y) y = va_arg(a, struct N(y)); r = r * 5 + v.a + v.b + (i64) (w.a + w.b) + x.a[1] - x.a[2] + (i64) y.d + y.l; }
    return r;
}
static i64 N(vs)(int n, ...) { va_list a, b; va_start(a, n); va_copy(b, a); i64 r = N(vf)(n, b); r += N(vf)(1, a); va_end(a); va_end(b); return r; }
u64 ENTRY(struct env *e, u64 s) {
    struct N(v) v = { (long) (s & 0xfffff), 2 }; struct N(w) w = { 3.5, 4 }; struct N(x) x = { { 1, (long) (s % 77), 3 } }; struct N(y) y = { 5.25, 6 };
    i64 r = N(vs)(2, v, w, x, y, v, w, x, y); e->w[7] = (int) r; return (u64) r;
}
//// hostvar
u64 ENTRY(struct env *e, u64 s) {
    double d = h_dsum(3, 1.5, (double) (s & 7), 2.25) + h_dsum(10, 1., 2., 3., 4., 5., 6., 7., 8., 9., (double) (s & 31));
    e->d[1] = d; struct h_s3 q = h_mk((int) s, d, 'x'); q.c[3] ^= 1; return (u64) h_take(q, 3) + (u64) h_take(h_mk(3, 1.5, (char) s), (int) (s & 3));
}
//// manyargs
static i64 N(f)(int a, long b, double c, char d, float e, short f, long g, int h, double i, float j, double k, double l, double m, double n, double o, long p, double q, char r) { return a + b * 2 + (i64) c * 3 + d * 4 + (i64) e * 5 + f * 6 + g * 7 + h * 8 + (i64) i + (i64) j + (i64) k + (i64) l * 2 + (i64) m + (i64) n + (i64) o * 9 + p * 10 + (i64) q * 11 + r * 12; }
u64 ENTRY(struct env *e, u64 s) {
    i64 (*fp)(int, long, double, char, float, short, long, int, double, float, double, double, double, double, double, long, double, char) = N(f);
    i64 r = 0; for (int i = 0; i < 3; i++) r += fp(i, (long) s, i * 1.5, (char) i, 2.f, (short) s, 3, i, 4., 5.f, 6., 7., 8., 9., 10. + i, (long) (s & 99), 12., 'c');
    e->l[4] ^= r; return (u64) r;
}
//// callbacks
static u64 N(cb)(u64 x) { return x * @C@ + (x >> 3); }
static u64 N(cb2)(u64 x) { return h_call(N(cb), x + 1) ^ x; }
u64 ENTRY(struct env *e, u64 s) { u64 r = h_call(N(cb), s); r += h_mix(r, h_call(N(cb2), s ^ 5)); e->l[6] = (long) r; return r; }
//// vla
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0;
    for (int i = 1; i < @N@; i++) { int n = 1 + (int) ((s >> i) & 7); @I@ a[n * i]; for (int j = 0; j < n; j++) for (int k = 0; k < i; k++) a[j * i + k] = (@I@) (s + (u64) (j * k)); char b[i]; b[i - 1] = (char) i; if (i == 3) continue; { long c[n]; c[n - 1] = (long) a[n - 1]; r += (u64) c[n - 1]; } r = r * 3 + (u64) a[i - 1] + sizeof(a) + sizeof(b) + b[i - 1]; if (r % 97 == 13) break; }
    e->l[7] = (long) r; return r;
}
//// vlaparam
static u64 N(t)(int n, int m, int *a, const char *s) { u64 r = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { r = r * 31 + (u64) a[i * m + j] + (u8) s[j]; } char copy[n * m + 1]; for (int i = 0; i < n * m; i++) copy[i] = s[i % 3]; copy[n * m] = 0; int *p = a + m; return r + (u64) p[-1] + (u64) copy[n]; }
u64 ENTRY(struct env *e, u64 s) { int n = 2 + (int) (s & 3), m = 3; int a[n * m]; for (int i = 0; i < n * m; i++) a[i] = (int) (s >> (i & 15)); e->w[1] += n; return N(t)(n, m, a, "abcd"); }
//// alloca
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0; u8 *last = 0;
    for (int i = 0; i < @N@; i++) { u8 *p = __builtin_alloca(8 + ((s >> i) & 15)); for (int j = 0; j < 8; j++) p[j] = (u8) (s >> j); if (last) r = r * 5 + last[3] + p[1]; last = p; long *q = __builtin_alloca_with_align(sizeof(long) * 3, 64); q[2] = i; r += (u64) q[2]; e->b[i] = p[i & 7]; }
    return r;
}
//// allocavla
u64 ENTRY(struct env *e, u64 s) {
    u64 r = s; long *keep = __builtin_alloca(16); keep[0] = 5; keep[1] = (long) s;
    for (int i = 1; i < 5; i++) { int arr[i * 2]; for (int j = 0; j < i * 2; j++) arr[j] = j * i + (int) keep[0]; r = h_mix(r, (u64) arr[i]); { double d[i]; d[i - 1] = i * 0.5; e->d[i] = d[i - 1]; } keep[0] += arr[2 * i - 1]; }
    return r + (u64) keep[0] + (u64) keep[1];
}
//// bitfields
struct N(t) { unsigned a : @W1@; int b : @W2@; _Bool c : 1; unsigned : 3; short d : 5; unsigned long f : @W3@; char g; };
static struct N(t) N(rot)(struct N(t) v) { v.a ^= (unsigned) v.b; v.d++; v.f = v.f * 3 + v.a; v.c = !v.c; return v; }
u64 ENTRY(struct env *e, u64 s) {
    struct N(t) t = { 1, -1, 1, 3, 99, 7 }; u64 r = 0;
    for (int i = 0; i < @N@; i++) { t = N(rot)(t); t.b += i; t.g--; r = r * 9 + t.a + (u64) t.b + t.c + (u64) t.d + t.f + (u64) t.g; e->bf1 += t.a; e->bf2 = (unsigned) r & 2047; e->bf3 ^= t.b; e->bf4 = (long) (r & 0xffffffff) + e->bf3; t.a = (unsigned) s; }
    return r;
}
//// switches
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0; int st = (int) (s % 5);
    for (int i = 0; i < @N@ + 4; i++) { switch (st) { case 0: r += 3; st = 2; break; case 1: r ^= @C@; case 2: { int x = (int) r; r += (u64) x; } st = (int) (r % 7); break; case 5: do { r = r * 5 + 1; } while (r % 3); st = 1; break; default: st = i % 6; r++; } e->h[i & 31] = (short) st; }
    return r;
}
//// gotos
u64 ENTRY(struct env *e, u64 s) {
    void *t[] = { &&a, &&b, &&c, &&done }; int n = 0; u64 r = s;
    goto *t[r % 3];
a:  r = r * 7 + 1; n++; if (n > @N@) goto done; goto *t[r % 3];
b:  r ^= r >> 5; n++; { int q[2] = { n, (int) r }; r += (u64) q[1] & 0xff; } if (n > @N@) goto done; goto *t[(r + 1) % 3];
c:  r += @C@; n++; e->w[n & 31] = (int) r; goto *t[n > @N@ ? 3 : r % 2];
done: return r + (u64) n;
}
//// stmtexpr
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0; for (int i = 0; i < @N@; i++) r += ({ u64 q = s + (u64) i; int v[3] = { 1, 2, (int) q }; q * 3 + (u64) v[i % 3]; }) ?: 9; e->l[3] = (long) ({ long z = (long) r; z / 3; }); return r;
}
//// literals
struct N(p) { int x, y; const char *n; };
static int N(d)(const struct N(p) *p) { return p->x * 3 + p->y + p->n[1]; }
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0; for (int i = 0; i < 4; i++) { r = r * 11 + (u64) N(d)(&(struct N(p)) { i, (int) s & 15, "hello" }); int *a = (int[]) { i, i * 2, (int) (s & 7) }; r += (u64) a[2] + (u64) a[1]; e->w[i] = ((int[3]) { 1, [2] = 5 })[i % 3]; }
    return r + (u64) L"wide"[s & 3] + (u64) "str"[s % 3];
}
//// pointers
struct N(l) { struct N(l) *next; @I@ v; };
u64 ENTRY(struct env *e, u64 s) {
    struct N(l) n[5], *head = 0; for (int i = 0; i < 5; i++) { n[i].v = (@I@) (s >> i); n[i].next = head; head = &n[i]; }
    struct N(l) *prev = 0; while (head) { struct N(l) *t = head->next; head->next = prev; prev = head; head = t; }
    u64 r = 0; for (struct N(l) *p = prev; p; p = p->next) r = r * 17 + (u64) p->v + (u64) (p - n); u8 *q = e->b, **qq = &q; while (q < e->b + 8) *(*qq)++ ^= (u8) r; return r;
}
//// conversions
u64 ENTRY(struct env *e, u64 s) {
    float f = (float) (s >> 40); double d = (double) (s >> 11) + (double) (i64) (s >> 20); u64 u = s | 0x8000000000000000ul; double du = (double) u; float fu = (float) u; long double lu = (long double) u;
    i64 r = (i64) f + (i64) (d / 1024) + (i64) (signed char) s + (short) s + (int) s + (u8) s + (u16) s + (_Bool) (s & 64);
    e->d[0] = du; e->f[0] = fu; e->l[0] = (long) (lu / 4); return (u64) r + (u64) (du > 1e18) + (u64) (int) -f;
}
//// logic
static int N(t)(u64 *c, int v) { (*c)++; return v; }
u64 ENTRY(struct env *e, u64 s) {
    u64 c = 0, r = 0; for (int i = 0; i < @N@; i++) { int a = (int) (s >> i) & 1, b = (int) (s >> (i + 3)) & 1; r = r * 2 + (u64) ((N(t)(&c, a) && N(t)(&c, b)) || (N(t)(&c, !a) ? N(t)(&c, b) : (e->w[i] = 3, N(t)(&c, 1)))); }
    return r * 100 + c;
}
//// shifts
u64 ENTRY(struct env *e, u64 s) { u64 r = 1; i64 q = (i64) s; u32 w = (u32) s; for (int i = 0; i < @N@; i++) { r = (r << (i & 7)) | (s >> (i * 3)); q = (q >> 1) - (q << 3 >> 5); w = w << 3 ^ w >> (29 - i % 8); e->l[i & 31] ^= q; } return r + (u64) q + w + ~r + (u64) -q; }
//// arrays3
u64 ENTRY(struct env *e, u64 s) { @I@ a[2][3][@N@]; u64 r = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < @N@; k++) a[i][j][k] = (@I@) (s >> (i + j + k)); @I@ (*p)[@N@] = a[1]; for (int k = 0; k < @N@; k++) r = r * 3 + (u64) p[2][k] - (u64) a[0][1][k]; e->b[3] = (u8) r; return r + sizeof(a); }
//// fnptr
static u64 N(a)(u64 x) { return x + 1; } static u64 N(b)(u64 x) { return x * 3; } static u64 N(c)(u64 x) { return x ^ @C@; }
static u64 (*const N(tab)[3])(u64) = { N(a), N(b), N(c) };
static u64 (*N(sel)(int k))(u64) { return N(tab)[k % 3]; }
u64 ENTRY(struct env *e, u64 s) { u64 r = s; for (int i = 0; i < @N@ + 2; i++) r = N(sel)((int) (r % 3) + i)(r); e->w[2] = (int) r; return r; }
//// strings
static int N(cmp)(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a - *b; }
u64 ENTRY(struct env *e, u64 s) { static const char *const w[] = { "alpha", "beta", "gamma", "alphb", "" }; char buf[24] = "x"; int o[5] = { 0, 1, 2, 3, 4 }; for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) if (N(cmp)(w[o[j]], w[o[j + 1]]) > 0) { int t = o[j]; o[j] = o[j + 1]; o[j + 1] = t; } u64 r = 0; for (int i = 0; i < 5; i++) { r = r * 8 + (u64) o[i]; buf[i] = w[o[i]][0]; } buf[s % 20] = 1; for (int i = 0; i < 24; i++) r = r * 5 + (u8) buf[i]; e->b[0] += (u8) r; return r; }
//// qsort
static void N(q)(@I@ *a, int l, int r) { int i = l, j = r; @I@ p = a[(l + r) / 2]; while (i <= j) { while (a[i] < p) i++; while (a[j] > p) j--; if (i <= j) { @I@ t = a[i]; a[i++] = a[j]; a[j--] = t; } } if (l < j) N(q)(a, l, j); if (i < r) N(q)(a, i, r); }
u64 ENTRY(struct env *e, u64 s) { @I@ a[9]; for (int i = 0; i < 9; i++) { s = s * 6364136223846793005ul + 1442695040888963407ul; a[i] = (@I@) (s >> 33); } N(q)(a, 0, 8); u64 r = 0; for (int i = 0; i < 9; i++) r = r * 7 + (u64) a[i]; e->l[5] = (long) a[4]; return r; }
//// unions
union N(u) { u64 l; u32 w[2]; u8 b[8]; double d; struct { u16 lo; short hi : 9; } s; };
static union N(u) N(sw)(union N(u) v) { u8 t = v.b[0]; v.b[0] = v.b[7]; v.b[7] = t; v.s.hi += 3; return v; }
u64 ENTRY(struct env *e, u64 s) { union N(u) v = { .l = s }; for (int i = 0; i < 3; i++) { v = N(sw)(v); v.w[1] += v.w[0]; e->b[i] ^= v.b[2]; } return v.l + v.s.lo + (u64) v.s.hi; }
//// deepexpr
u64 ENTRY(struct env *e, u64 s) { i64 a = (i64) s, b = 3, c = 5; i64 r = ((((a + (b * (c - (a ^ (b + (c & (a | (b - (c * (a + 1)))))))))) << 1) + (h_mix((u64) a, (u64) (b * (c + (i64) h_mix(1, s)))) & 0xffff)) ^ ((a > b ? a - b : b - a) + (c == 5 ? e->w[1]++ : e->w[2]--))); return (u64) r + (u64) ((double) (a & 15) * (2.0 + (double) (b + (c * (i64) (1.5 * (double) (a & 7)))))); }
//// locals
static i64 N(use)(const u8 *p, int n) { i64 r = 0; for (int i = 0; i < n; i += 7) r = r * 3 + p[i]; return r; }
u64 ENTRY(struct env *e, u64 s) { u8 big[@BIG@]; _Alignas(@AL@) u8 al[3]; for (int i = 0; i < @BIG@; i += 3) big[i] = (u8) (s + (u64) i); for (int i = 1; i < @BIG@; i += 3) big[i] = 0; for (int i = 2; i < @BIG@; i += 3) big[i] = (u8) i; al[1] = (u8) s; i64 r = N(use)(big, @BIG@); e->l[8] = r; return (u64) r + al[1]; }
//// incdec
u64 ENTRY(struct env *e, u64 s) { @I@ x = (@I@) s; _Bool t = 0; float f = 1; long double l = 2; char *p = "0123456789"; u64 r = 0; for (int i = 0; i < 4; i++) { r = r * 3 + (u64) (x++ + 1) + (u64) --x; x += 2; r += (u64) (int) f++ + (u64) (int) --l + (u64) t; t = !t; l += 3; r += (u64) *p++; e->w[i]++; --e->h[i]; e->f[1]++; r += (u64) ++e->b[i]; } return r + (u64) x; }
//// assignops
u64 ENTRY(struct env *e, u64 s) { @I@ x = (@I@) (s & 0xff) + 1; double d = 2; for (int i = 1; i < @N@; i++) { x += (@I@) i; x *= 3; x -= (@I@) 2; x /= (@I@) 2; x ^= (@I@) s; x |= 1; x &= (@I@) 0x7f; x %= 50; x <<= 1; x >>= (@I@) (i & 1); d += i; d *= 1.5; d -= (double) x; d /= 2; e->w[i & 31] += (int) x; e->d[i & 15] = d; } return (u64) x + (u64) (i64) (d * 16); }
//// generic
#define N_sel(x) _Generic((x), int: 1, long: 2, double: 3, char *: 4, default: 5)
u64 ENTRY(struct env *e, u64 s) { u64 r = (u64) N_sel(1) + (u64) N_sel(2l) * 10 + (u64) N_sel(1.) * 100 + (u64) N_sel((char *) 0) * 1000 + (u64) N_sel((struct env *) 0) * 10000; _Static_assert(sizeof(int) == 4, "x"); e->w[4] = (int) r; return r ^ s ^ (u64) __func__[0]; }
//// enums
enum N(e) { A_@U@ = 3, B_@U@, C_@U@ = @C@ & 0xff };
static enum N(e) N(nx)(enum N(e) v) { return v == A_@U@ ? B_@U@ : v == B_@U@ ? C_@U@ : A_@U@; }
u64 ENTRY(struct env *e, u64 s) { enum N(e) v = A_@U@; u64 r = s; for (int i = 0; i < 5; i++) { v = N(nx)(v); r = r * 3 + (u64) v; } e->w[5] = (int) v; return r; }
//// statics
u64 ENTRY(struct env *e, u64 s) { static const int tab[8] = { 1, 2, 3, 5, 8, 13, 21, @C@ & 63 }; static const struct { char a; double b; const int *c; } st = { 'a', 1.5, &tab[3] }; u64 r = 0; for (int i = 0; i < 8; i++) r = r * 3 + (u64) tab[(i + (int) (s & 7)) & 7]; e->d[5] = st.b; return r + (u64) *st.c + (u64) st.a; }
//// ldstruct
struct N(t) { long double a; int b; }; struct N(m) { long double x; };
static struct N(t) N(f)(struct N(t) v, struct N(m) m) { v.a = v.a * 2 + m.x; v.b++; return v; }
static struct N(m) N(g)(struct N(m) m, int k) { m.x += k; return m; }
u64 ENTRY(struct env *e, u64 s) { struct N(t) t = { (long double) (s & 63), 1 }; struct N(m) m = { 0.5L }; for (int i = 0; i < 3; i++) { m = N(g)(m, i); t = N(f)(t, m); } e->d[6] = (double) t.a; return (u64) t.a + (u64) t.b + (u64) (m.x * 2); }
//// kr
static long N(kr)(a, b, c) char a; float b; short c; { return a + (long) b * 3 + c; }
u64 ENTRY(struct env *e, u64 s) { long r = N(kr)((char) s, (float) (s & 7), (short) (s >> 5)); e->l[11] = r; return (u64) r; }
//// vlagoto
u64 ENTRY(struct env *e, u64 s) { u64 r = 0; int i = 0; again:; { int n = 2 + i; long a[n]; for (int k = 0; k < n; k++) a[k] = (long) (s >> k) + i; r = r * 3 + (u64) a[n - 1]; { char z[n + i]; z[n + i - 1] = (char) i; r += (u64) z[n - 1 + i]; if (i++ < @N@) goto again; } } e->l[12] = (long) r; return r; }
//// vlaret
static i64 N(f)(int n, u64 s) { int a[n]; for (int i = 0; i < n; i++) { char t[i + 1]; t[i] = (char) (s >> i); a[i] = t[i]; if (i > 3 && t[i] == 7) return a[i - 1]; } { short q[n * 2]; q[n] = (short) a[n - 1]; return q[n] * 3; } }
u64 ENTRY(struct env *e, u64 s) { i64 r = 0; for (int i = 1; i < 6; i++) r = r * 3 + N(f)(i, s + (u64) i); e->l[13] = r; return (u64) r; }
//// hoststruct
u64 ENTRY(struct env *e, u64 s) { struct h_s3 a[2] = { { 1, 2.5, "ab" }, h_mk((int) s & 63, 0.25, 'q') }; i64 r = 0; for (int i = 0; i < 4; i++) { a[i & 1] = h_mk(a[0].a + a[1].a, a[0].b / 2 + a[1].b, (char) (a[1].c[0] + i)); r += h_take(a[i & 1], i); } e->d[7] = a[0].b; return (u64) r; }
//// commas
u64 ENTRY(struct env *e, u64 s) { int i, j; u64 r = 0; for (i = 0, j = @N@; i < j; i++, j--) r = r * 3 + (u64) (i * j), e->w[i] = j; u64 q = (s & 1 ? (r++, r * 2) : (r--, r)); return q * 3; }
//// vlastmt
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0; for (int i = 1; i < 4; i++) r = (r + s) * ((s ^ 3) + ({ int n = @BIG@ + i; @I@ v[n]; v[0] = (@I@) s; v[n - 1] = (@I@) i; (u64) v[0] + (u64) v[n - 1]; })) + (u64) i * ({ char q[i * 100]; q[i * 100 - 1] = (char) s; u64 t = (u64) q[i * 100 - 1]; { long z[30 + i]; z[1] = (long) t; t += (u64) z[1]; } t; });
    e->l[14] = (long) r; return r;
}
//// vlaargs
static u64 N(f)(u64 a, double d, u64 b, u64 c) { return a * 3 + (u64) (i64) d + b * 5 + c * 7; }
u64 ENTRY(struct env *e, u64 s) {
    u64 r = N(f)(s, 1.5 + ({ double v[@BIG@ + (int) (s & 3)]; v[2] = (double) (s & 31); v[2] * 2; }), ({ int n = 20 + (int) (s & 15); long v[n]; for (int i = 0; i < n; i += 5) v[i] = (long) s + i; u64 t = 0; for (int i = 0; i < n; i += 5) t = t * 3 + (u64) v[i]; t; }), s >> 3);
    e->d[9] = (double) (r & 0xffff); return r + N(f)(r, 2, r ^ 1, ({ char *p = __builtin_alloca(@BIG@); p[1] = (char) r; (u64) p[1] + s; }));
}
//// bigframe
struct N(b) { @I@ v[@BIG@]; };
static struct N(b) N(mk)(u64 s) { struct N(b) x; for (int i = 0; i < @BIG@; i += 9) x.v[i] = (@I@) (s >> (i & 31)); for (int i = 1; i < @BIG@; i++) if (i % 9) x.v[i] = (@I@) 3; return x; }
static u64 N(take)(int k, struct N(b) a, double d, struct N(b) c) { a.v[2] += (@I@) k; return (u64) a.v[0] * 3 + (u64) a.v[2] + (u64) c.v[@BIG@ / 9 * 9 - 9] + (u64) d; }
u64 ENTRY(struct env *e, u64 s) { struct N(b) x = N(mk)(s); u64 r = s * 3 + N(take)((int) (s & 7), x, 2.5, N(mk)(s >> 5)); e->l[15] = (long) r; return r; }
//// ldstack
static long double N(f)(long double a, int b, long double c) { return a * b - c; }
u64 ENTRY(struct env *e, u64 s) { long double a = (long double) (s & 127); int n = (int) (s & 7) + 20; long double r = (a + 1) * (N(f)(a, 2, a / 4) + ({ long double v[n]; v[n - 1] = a * 3; v[n - 1]; })) + (long double) (s & 3); e->l[16] = (long) r; return (u64) (i64) r + (u64) (r > a); }
//// allocaalign
static u64 N(id)(u64 x, u64 y) { return x * 3 + y; }
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 1;
    for (int i = 0; i < 3; i++) {
        r = r * 5 + s * N(id)(r + 2, ({ u8 *v = __builtin_alloca_with_align(@BIG@, @AA@); v[3] = (u8) s; v[@BIG@ - 1] = 4; (u64) (v[3] + v[@BIG@ - 1]) + ((u64) v & 7); })) + (u64) ((double) (s & 15) * (1.5 + (double) ({ u8 *v = __builtin_alloca_with_align(50 + i, @AB@); v[0] = 2; v[49] = (u8) (s >> 3); v[49] + v[0]; })));
        e->w[i] += (int) r;
    }
    return r;
}
//// structstmt
struct N(s) { @I@ v[@M@]; double d; };
static struct N(s) N(mk)(u64 s, int k) { struct N(s) r = { { (@I@) s, (@I@) k }, (double) k }; return r; }
u64 ENTRY(struct env *e, u64 s) {
    u64 r = 0;
    for (int i = 0; i < 4; i++) r = r * 7 + (u64) (s + (u64) ({ struct N(s) q = N(mk)(s, i); char b[i + 60]; b[i + 59] = (char) q.v[1]; q.v[2] += (@I@) b[i + 59]; q; }).v[2]) + (u64) N(mk)(s ^ r, i).v[0] * (u64) N(mk)(r, 2).d;
    e->d[10] = (double) (r & 4095); return r;
}
//// biglocals
static u64 N(g)(u64 s, int d) { @I@ t[@BIG@]; struct { @I@ v[@BIG@]; u8 z; } q; t[0] = (@I@) s; t[@BIG@ - 1] = (@I@) (s >> 7); q.v[@BIG@ / 2] = (@I@) d; q.z = (u8) s; u64 r = d > 0 ? N(g)(s * 3 + 1, d - 1) : h_mix(s, 5); return r * 31 + (u64) t[0] + (u64) t[@BIG@ - 1] + (u64) q.v[@BIG@ / 2] + q.z; }
u64 ENTRY(struct env *e, u64 s) { u64 r = N(g)(s, (int) (s & 3)); e->l[14] = (long) r; return r; }
//// vlascope
u64 ENTRY(struct env *e, u64 s) {
    int n = 90 + (int) (s & 63), i = 0; u64 r = 0; u8 v[n]; for (int k = 0; k < n; k += 5) v[k] = 1; for (int k = 0; k < 24; k++) v[k] = (u8) (s >> (k & 31));
again: v[i] += 3; if (++i < @N@) goto again;
    for (int k = 0; k < 4; k++) { if (k == 1) continue; switch (v[k] & 3) { case 0: r += 7; goto fwd; case 1: break; default: r++; } { short q[k + 2]; q[k + 1] = v[k]; if (q[k + 1] & 4) goto fwd; r += (u64) q[k + 1]; } }
fwd: while (1) { int m[3]; if (i++ > 10) break; m[i % 3] = v[i]; if (m[i % 3] & 1) continue; r = r * 3 + (u64) m[i % 3]; }
    for (int k = 0; k < 24; k++) r = r * 5 + v[k];
    e->l[15] = (long) r; return r + sizeof(v);
}
