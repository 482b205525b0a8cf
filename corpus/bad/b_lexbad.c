int good(int a) { return a + 1; }
int x = 3 @ 4;
