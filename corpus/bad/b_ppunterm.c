#ifdef A
int a;
#else
int b;
