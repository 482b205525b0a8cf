/* array lengths, bit widths, enumerator values and alignments are copied as trees: every kind of node inside them */
struct P { int a, b; struct { int c[4]; } n; };
extern int ext(int, ...);
int f(int k, double d) {
    int lens[({
        int i = 0, total = 3;
        static const char *names[] = {"one", [2] = "three"};
        struct P p = {.a = 1, .n.c[2] = 5};
        struct P q[2] = {[1].n = {{1, 2}}, [0] = {.b = 3}};
        for (int z = 0; z < 2; z++) { if (z == 1) continue; total += z; }
        for (;;) { break; }
        while (i < 2) i++;
        do { i--; } while (i > 0);
        switch (k) { case 1: total++; break; case 2: total--; break; default: total = 4; }
        if (k) total += p.a; else total += p.b;
        if (k > 3) ;
        goto out;
        total = 99;
    out:
        total += (int) sizeof(struct P) + _Alignof(long) + ((struct P){1, 2, {{3}}}).n.c[0] + (&p)->a + q[1].b;
        total += _Generic(k, int: 1, long: 2, default: 3);
        total += k ? 1 : 2, total *= 2, total <<= 1;
        total += names[0][1] + 'x' + L"wide"[1] + !k + ~k + -k + *&k + k++ + --k;
        total += 3;
        total += ({ int inner = ext(1, 2.5, "s"); inner; });
        void *lab = &&out;
        if (lab == 0) goto *lab;
        _Static_assert(1, "ok");
        (void) 0;
        ;
        total;
    })];
    lens[0] = 1;
    return sizeof lens + lens[0] + (int) d;
}
