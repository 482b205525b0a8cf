#include "env_layout.h"
#define va_list __builtin_va_list
#define va_start(a, b) __builtin_va_start((a), (b))
#define va_end(a) __builtin_va_end((a))
#define va_arg(a, t) __builtin_va_arg((a), t)
#define va_copy(a, b) __builtin_va_copy((a), (b))
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N(x) CAT(x, UNIT)
#define ENTRY N(kf)
u64 h_mix(u64 a, u64 b);
u64 h_call(u64 (*f)(u64), u64 x);
double h_dsum(int n, ...);
struct h_s3 { int a; double b; char c[5]; };
struct h_s3 h_mk(int a, double b, char c);
i64 h_take(struct h_s3 v, int k);
u64 ENTRY(struct env *e, u64 s);
