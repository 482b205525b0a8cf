int f(int n) { goto nowhere; { int v[n]; here: ; } return 0; }
