struct S { } s = {.b = 1};
