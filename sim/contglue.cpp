// C05 glue: hands a seeded history of container operations to the C half.
#pragma clang section text="ksimtext"
#include "engine.h"
struct cop { int op; long a, b, c; };
extern "C" void cont_run(int container, const cop *, int n, char *err, int errlen);
void contsim_run(int container, const std::vector<Op> &ops, std::string &err) {
    std::vector<cop> c;
    for (auto &o : ops) c.push_back({o.op, (long) o.a, (long) o.b, (long) o.c});
    char b[600] = "";
    cont_run(container, c.data(), (int) c.size(), b, sizeof b);
    err = b;
}
