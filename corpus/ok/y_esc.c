/* every escape, in every kind of character constant and string literal */
const char n[] = {'\'', '"', '\?', '\\', '\a', '\b', '\f', '\n', '\r', '\t', '\v', '\0', '\177', '\x7f', 'a', '~'};
const int w[] = {L'\'', L'"', L'\?', L'\\', L'\a', L'\b', L'\f', L'\n', L'\r', L'\t', L'\v', L'\0', L'\x3b1', L'z'};
const unsigned short h[] = {u'\'', u'"', u'\\', u'\a', u'\t', u'\0', u'\x20ac', u'q'};
const unsigned int d[] = {U'\'', U'"', U'\\', U'\b', U'\v', U'\0', U'\x1F600', U'k'};
const char *ns = "\'\"\?\\\a\b\f\n\r\t\v\1\377 end" "tail\0more";
const char *us = u8"\'\"\?\\\a\b\f\n\r\t\v\1 end" "x";
const unsigned short *hs = u"\'\"\?\\\a\b\f\n\r\t\v\1 end" u"\x41";
const unsigned int *ds = U"\'\"\?\\\a\b\f\n\r\t\v\1 end" U"\x42";
const int *ws = L"\'\"\?\\\a\b\f\n\r\t\v\1 end" L"\x43";
#define STR(x) #x
#define XSTR(x) STR(x)
const char *q = STR("a\n\"b\"\\" 'c' '\'' L"x\t" u'\\') XSTR(ns);
enum {
    C1 = 7u % 3, C2 = (1u << 31) >> 30, C3 = 5 <= 6, C4 = 5u <= 6u, C5 = 7 >= 8, C6 = 7u >= 8u, C7 = -7 / -1, C8 = 9u / 2,
    C9 = -8 >> 1, C10 = 3.5 <= 4.5, C11 = 4.5 >= 3.5, C12 = 1.0 < 2.0, C13 = 2.0 > 1.0, C14 = 1.0 == 1.0, C15 = 1.0 != 2.0
};
static int arr[10];
static int fn(int a) { return a; }
int (*pf)(int) = fn;
int (*pf2)(int) = &fn;
int *pa = arr + 3, *pb = &arr[9] - 4;
struct N { struct { int a; struct { char b; short c[4]; } in; } out[3]; } nn;
short *pc = &nn.out[2].in.c[3];
int use(int *p, int n2) { return *(p - n2) + (int) (p - arr) + p[-1] + *(n2 + p) + pf(C1) + pf2(C2); }
int main(void) { return use(pa, 2); }
