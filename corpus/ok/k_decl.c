typedef int I; typedef I (*FN)(I, const char *, ...); typedef struct S S;
struct S { S *next; FN fn; union { long l; float f; }; unsigned a : 3, b : 5, : 0, c : 9; const volatile char *cv; int arr[3][2]; };
enum E { A, B = 5, C, D = C * 2 } e1 = B; enum { ANON = -1 };
extern int ext; static const long k = 10L; _Thread_local int tls = 4; static _Thread_local char tb;
_Alignas(16) char al[3]; _Alignas(double) int al2; extern int *restrict rp_fn(int *restrict, int n);
inline static int il(void) { return 1; } _Noreturn void die(int);
int (*(*fpp)(int))[3]; int *(*afp[3])(void); const int *const cip = &al2; char str[] = "abc"; char fix[2] = "x";
void kr(a, b) int a; char b; { (void) a; (void) b; }
S make(S in, struct { int q; } *p) { S s = in; s.next = &in; s.a = 1; s.c += 2; s.arr[1][0] = il(); return s; }
_Static_assert(sizeof(int) == 4, "int");
int f(int a[static 2], int n, int v[n], void (*cb)(int)) { cb(a[0] + v[1]); return ext + k + tls + tb; }
