/* ksim:ext identifiers simext* and expression statements become extension nodes when hooks are installed */
struct pt { int x, y; };
static struct pt simext_p = { 1, 2 };
static int simext_arr[4] = { 1, 2, 3 };
extern int simext_fn(int, ...);
static int add(int a, struct pt q) { return a + q.x; }
int ext_main(int simext_a, double simext_d) {
    int simext_i, n = simext_a;
    for (simext_i = 0; simext_i < 4; simext_i++) {
        simext_arr[simext_i] += n * simext_a;
        n = simext_fn(simext_i, simext_d) + add(simext_a, simext_p);
        if (simext_i > 2) simext_p.x = n; else simext_p.y--;
    }
    int *q = &simext_a;
    *q = (int) simext_d;
    switch (simext_a) { case 1: n++; break; default: simext_a ? n : (n = 2); }
    do { n -= sizeof(simext_arr); } while (n > simext_a);
    return n + (simext_a, simext_i);
}
