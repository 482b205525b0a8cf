/* location- and text-dependent constructs, repeated */
#define S_(x) #x
#define S(x) S_(x)
#define CAT(a, b) a##b
const char *f0 = __FILE__; int l0 = __LINE__; int l1 = __LINE__;
const char *s0 = S(__LINE__) S(l0 + l1); int CAT(v, 1) = __LINE__ + 1;
static int fn(int a) { const char *n = __func__; return a + n[0] + __LINE__; }
static int gn(int a) { const char *n = __func__; static int cnt = 5; lab: if (a-- > 3) goto lab; return a + n[1] + cnt++; }
int use(void) { static int cnt = 7; return fn(__LINE__) + gn(cnt) + l0; }
#line 77 "other.c"
int l2 = __LINE__; const char *f1 = __FILE__;
float fl = 1.25f; double db = 2.5e3; long double ld = 3.5L; unsigned short us[] = u"ab"; unsigned int ui[] = U"cd"; int wi[] = L"ef"; char c8[] = u8"gh";
