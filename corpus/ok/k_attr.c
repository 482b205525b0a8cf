__attribute__((noreturn)) void die(void);
struct __attribute__((packed, aligned(8))) A { int x __attribute__((unused)); };
int f(int a __attribute__((unused))) __attribute__((pure, weak));
int __attribute__((section("x"))) g = 1;
