#if ({ int x = 3; x; })
#endif
