#define T(x) _Generic((x), int: 1, char *: 2, double: 3, default: 4)
int a = T(1), b = T("s"), c = T(1.0), d = T('c'), e = T((short) 1);
int f(void *p) { return _Generic(p, void *: T(p), const char *: 0); }
_Static_assert(_Generic(1L, long: 1, default: 0), "g");
