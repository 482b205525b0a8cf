int f(void) { int x = ((((1 + (2 * (3 - (4 / (5 % (6 & (7 | (8 ^ (9 << (1 >> 2))))))))))))); { { { { y; } } } } return x; }
