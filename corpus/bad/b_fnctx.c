int f(int a[({ int x = 2; x; })]);
