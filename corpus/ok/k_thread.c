_Thread_local int a = 3; static _Thread_local struct { int x, y; } b = {1, 2}; extern _Thread_local long c; _Thread_local int arr[4];
int f(int n) { static _Thread_local int local = 9; a += n; b.y--; c = a; arr[n & 3]++; return local++ + b.x + *(&a) + arr[1]; }
