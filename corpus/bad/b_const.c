int n; int arr[n]; static int s = f(); enum { E = n };
