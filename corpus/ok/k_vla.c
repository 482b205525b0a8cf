int sum(int n, int m, int *a) { int s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s += a[i * m + j]; return s; }
int v(int n) {
    int a[n], b[n][n + 1]; char (*p)[n]; p = 0; typedef int T[n * 2]; T t;
    a[0] = sizeof a; b[n - 1][n] = sizeof(b[0]); t[1] = sizeof *p + sizeof(T);
    { int inner[a[0]]; inner[0] = 1; a[0] = inner[0]; }
    for (int i = 0; i < n; i++) { int l[i + 1]; l[i] = i; if (i == 2) continue; if (i == 4) break; a[i % n] += l[i]; }
    return a[0] + b[0][0] + t[1] + sum(n, n + 1, &b[0][0]);
}
