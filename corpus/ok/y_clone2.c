#define CAT(a, b) a##b
#define JOIN(a, ...) a##__VA_ARGS__
double cat1 = CAT(1.5 + 2 + 0x1, 0);
const char *cat2 = CAT("text" "more" "x", );
int cat3 = JOIN(1 + 2, 3 + 4);
int vla_alloca(int n) {
    char a[1 + n + (*(int *) __builtin_alloca(16 + n) & 0)];
    int (*p)[sizeof((int[]){1, 2, n})] = 0;
    a[0] = 1;
    return sizeof(a) + (p == 0);
}
int va_nested(int n, ...) {
    __builtin_va_list ap, aq;
    int r;
    __builtin_va_start(ap, n);
    __builtin_va_copy(aq, ap);
    r = __builtin_va_arg(ap, int) + (int) sizeof(char[1 + (__builtin_va_arg(aq, int) & 3)]);
    __builtin_va_end(aq);
    __builtin_va_end(ap);
    return r;
}
