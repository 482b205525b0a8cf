int (*signal(int sig, void (*func)(int)))(int); void (*tbl[4])(void); int (*pa)[3][4]; int (*(*x[2])(void))[5]; char *(*(**fpp)(int (*)(void), ...))[8];
typedef int (*cmpfn)(const void *, const void *); void qs(void *b, unsigned long n, unsigned long s, cmpfn c); int cmpi(const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
int use(int (*f)(const void *, const void *), int a[const], int fn(int)) { qs(a, 3, sizeof *a, f); qs(a, 1, 2, &cmpi); return (*f)(a, a + 1) + fn(2) + (**fn)(3) + (*pa)[1][2] + pa[0][0][1]; }
