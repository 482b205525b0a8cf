enum { K1 = (1 << 4) | 3, K2 = K1 / 2 - 1, K3 = (int) 3.7, K4 = sizeof(long), K5 = K1 > K2 ? 10 : 20, K6 = !K1 || K2 && 1, K7 = -5 % 3, K8 = ~0 };
static double d = 1.0 + 2 * 3.5 / 4 - (float) 1; static int i = 'a' + '\n' + '\x41' + '\101' + L'w'; static unsigned long u = 0xffffffffffffffffUL; static long o = 0777 + 0x1fL;
static int *p = &i + 1; static char *s = "str" + 1; static long off = (long) &((struct { int a, b; } *) 0)->b; static int arr[K5] = {[K7 + 3] = 1}; int bf[sizeof(struct { int x : K4; })];
static int (*fn)(void); static const void *np = (void *) 0; float f = 1.5e-3f; long double ld = 0x1.8p3L; int cmp = (1.5 < 2.5) + (3 == 3.0); static int *ap = &arr[2]; int sh = 1 << 3 >> 1;
int sw(int x) { switch (x) { case K1: return 1; case K1 + 1: return 2; case sizeof(int) * 100: return 3; } return bf[0] + arr[0] + *p + (s != np) + (fn == 0) + d + u + o + off + *ap; }
