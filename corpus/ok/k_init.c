struct In { int a, b; char s[4]; }; union U { int i; double d; struct In in; };
struct Out { struct In in[2]; int arr[5]; union U u; struct { int x : 4; int y; }; const char *p; };
struct Out g = {.in = {[1] = {.b = 3, .s = "xy"}, [0].a = 1}, .arr = {[2] = 5, 6, [0] = 1}, .u.d = 2.5, .x = 3, .y = -1, .p = "lit" "cat"};
int m[2][3] = {{1, 2}, {3}}; int fl[2][2] = {1, 2, 3, 4}; int un[] = {[7] = 1}; char *sp[] = {"a", "b", 0}; int *ip = &m[1][2]; long diff = sizeof g;
double dd[2] = {1, 2.0f}; struct In *cp = &(struct In){1, 2, "z"}; int (*fp)(void); unsigned short ws[] = u"wide"; unsigned int us[] = U"u32"; int lw[] = L"w";
int use(int n) {
    struct Out o = {.in[1].a = n, .arr = {n, n + 1}, .u = {.in = {1, 2}}}; struct In z = {0}; struct In c = o.in[1]; int a[3] = {n};
    int *q = (int[]){1, n, 3}; struct In *s = &(struct In){.b = n}; char buf[8] = "hi"; static int st[2] = {4, 5}; union U uu = {n};
    o.in[0] = z; c = *s; return q[1] + a[0] + st[1] + uu.i + buf[0] + c.b;
}
