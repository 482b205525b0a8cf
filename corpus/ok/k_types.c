_Bool b; signed char sc; unsigned char uc; short sh; unsigned short us; long long ll; unsigned long long ull; float f; long double ld;
struct Inc; struct Inc *ip; struct Inc { int v; }; struct Rec { struct Rec *l, *r; int (*cmp)(const struct Rec *, const struct Rec *); };
union N { struct { int a; union { int b; float c; }; }; char d[16]; }; struct Flex { int n; int data[]; }; struct Empty {};
typedef char C2[2][2]; typedef C2 *PC2; volatile int vol; const volatile unsigned char *const cvp = &uc;
void conv(void) { b = sc; sc = ull; us = f; ll = ld; ld = uc; f = ll; ull = -1; b = ip; b = f; vol = vol + 1; ip->v = (*(struct Inc *) (void *) cvp).v; }
int cmp(const struct Rec *a, const struct Rec *b) { return a->cmp == b->cmp ? a->l < b->r : cmp(a->r, b->l); }
int un(union N *n, PC2 p, struct Flex *fx) { n->a = n->b; n->c = (*p)[1][0]; return fx->data[fx->n] + sizeof(union N) + sizeof(C2); }
