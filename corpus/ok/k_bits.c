struct B { unsigned a : 1; int b : 7; unsigned long c : 33; _Bool d : 1; char e; short f : 12; unsigned : 4; unsigned g : 20; };
union UB { struct B b; unsigned long raw[3]; };
int rw(struct B *b, int v) { b->a = v; b->b += v; b->c <<= 2; b->d = !b->d; b->f--; ++b->g; b->e = b->a + b->b; return b->c > 4 ? b->f++ : (b->g |= 3); }
struct B mkb(void) { struct B b = {1, -3, 5, 1, 'x', .g = 9}; union UB u = {b}; u.raw[1] ^= 7; return u.b; }
