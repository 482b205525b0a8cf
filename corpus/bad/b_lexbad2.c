#define M(a) a
int y = M(1) + ` 2;
