struct P { int a, b; };
int ext(int);
int f(int k, int *q, struct P *p) {
    int v[({ if (k) ext(1); else ext(2); while (k) { break; } do continue; while (k--); for (; k;) k = k - 1; switch (k) { case 1: ext(3); break; default: ; } k; })];
    int w[k ? sizeof(struct P) : p->a + q[1] * (int) 2.5 + !k + _Generic(k, int: 3, default: 4) + (k, 4) + ext("abc"[1]) + _Alignof(int) + L'x' + (*q)++ - --k];
    char m[(k += 2) + ((struct P){1, .b = 2}).b];
    for (int i = 0; i < k; i++) { int z[i + 1]; z[i] = i; v[0] += z[i]; }
    return sizeof v + sizeof w + sizeof m + sizeof(int[k + 1]);
}
