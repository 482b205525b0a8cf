#define OBJ 42
#define FN(a, b) ((a) + (b))
#define STR(x) #x
#define XSTR(x) STR(x)
#define CAT(a, b) a##b
#define VA(fmt, ...) f(fmt, __VA_ARGS__)
#define EMPTY
#define NEST(x) FN(x, FN(x, OBJ))
#define SELF SELF + 1
#if defined(OBJ) && OBJ == 42 && !defined NOPE
int CAT(var, 1) = NEST(3);
#elif 1
#error no
#else
int bad;
#endif
#ifdef NOPE
#error "nope"
#elif (OBJ > 4 ? 1 : 0) || (2 - 3 * 4 % 5 << 1 >> 1 & 3 | 4 ^ 1)
const char *s = XSTR(FN(1, "q\n")) STR( a  b ) __FILE__; int line = __LINE__;
#endif
#ifndef X
# define X 'c'
#endif
#undef X
#ifndef X
int f(const char *, ...); int g(void) { return VA("%d", 1, OBJ) EMPTY; }
#endif
#line 100 "other.c"
int l2 = __LINE__;
#pragma once
#pragma STDC FP_CONTRACT ON
#if 0
#include "missing.h"
junk ' tokens
#endif
int cont\
inued = 1; /* c */ // d
int ver = __STDC_VERSION__ > 0; int hosted = __STDC__ + __STDC_HOSTED__;
