int raw(int a, char b) { struct S { int x; } s = {a}; int t[2] = {1, 2}; for (int i = 0; i < 2; i++) s.x += t[i] * b; return s.x > 3 ? s.x : -1; }
