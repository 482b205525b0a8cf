#if sizeof(int) == foo
int a;
#endif
