#define CAT(a, b) a ## b
#define CAT3(a, b, c) a ## b ## c
#define S(x) #x
#define V(...) #__VA_ARGS__
_Pragma("once") _Pragma("weird thing")
int a CAT(=,) 1 CAT(<, <) 2 CAT(|, |) 3 CAT(&, &) 1;
int b = 5 - 3 CAT(>, >) 1 CAT(!, =) 2 CAT3(<, <, ) 1;
int CAT(x, 1), CAT(y, 12), CAT(, z), CAT(w,);
double dd = CAT(1., 5) + CAT(1, e5) + CAT(0x, 1F);
const char *s = S(a  b "q\n" 'c') V(1, 2 , 3);
int order = __BYTE_ORDER__;
int le = __ORDER_LITTLE_ENDIAN__ + __ORDER_BIG_ENDIAN__ + __ORDER_PDP_ENDIAN__;
long iso = __STDC_ISO_10646__, u16 = __STDC_UTF_16__ + __STDC_UTF_32__;
int hosted = __STDC_HOSTED__ + __STDC__ + (__STDC_VERSION__ > 0);
#if defined __STDC_LIB_EXT1__
int ext1 = __STDC_LIB_EXT1__;
#endif
int arrow(struct Q { int i; } *q) { int k = q CAT(-, >) i; k CAT(+, =) 2; k CAT(<<, =) 1; return CAT(k, ) CAT(+, +); }
#pragma STDC FP_CONTRACT ON
#pragma whatever 1 2 3
#if (1 ? 2 : 0) && (5 / 2 == 2) && ((7 % 4) ^ 3) == 0 && ('a' < 'b') && -1 < 0u + 1 || ~0
int cond = __LINE__;
#else
#error no
#endif
#undef CAT
#line 77 "other.c"
const char *fl = __FILE__; int ln = __LINE__;
