int puts(const char *);
int ctl(int n) {
    int s = 0;
    for (int i = 0; i < n; i++) { if (i == 3) continue; if (i > 10) break; s += i; }
    while (n--) { s ^= n; if (s & 1) goto out; }
    do { s--; } while (s > 100);
    switch (s) { case 0: return 1; case 1: case 2: s = 5; break; case 'x': { int k = s; s = k * 2; } default: s++; }
    for (;;) { break; }
out:
    ;
    if (s) { return s; } else return -s;
}
void lab(int x) { void *t[] = {&&a, &&b}; goto *t[x & 1]; a: x++; b: puts("b"); }
int se(int a) { return ({ int b = a * 2; b += 1; b; }) ?: 4; }
