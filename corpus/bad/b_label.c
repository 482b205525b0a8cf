int g(int a, int b[(int) &&lab]);
