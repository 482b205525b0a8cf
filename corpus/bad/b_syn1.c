int f(int a { return a; }
