int f(int k) { int a[1+({int z = 2; z;})]; return sizeof a; }
