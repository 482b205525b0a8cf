#if "abc"[0]
int b;
#endif
