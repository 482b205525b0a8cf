struct S { int a; } s = {.b = 1}; int arr[2] = {[5] = 1};
