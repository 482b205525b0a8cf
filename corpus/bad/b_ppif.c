#if 1 +
int a;
#endif
