#include <stdarg.h>
typedef unsigned long u64; typedef long i64;
u64 h_mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ul + (a << 6) + (a >> 2); return a; }
u64 h_call(u64 (*f)(u64), u64 x) { return f(x ^ 1) + 3; }
double h_dsum(int n, ...) { va_list a; va_start(a, n); double r = 0; while (n--) r += va_arg(a, double); va_end(a); return r; }
struct h_s3 { int a; double b; char c[5]; };
struct h_s3 h_mk(int a, double b, char c) { struct h_s3 r = { a & 0xffff, b, { c, 1, c, 2, c } }; return r; }
i64 h_take(struct h_s3 v, int k) { return v.a * k + (i64) (v.b * 8) + v.c[0] + v.c[3]; }
