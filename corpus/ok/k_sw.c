int duff(char *to, char *from, int count) { int n = (count + 7) / 8; switch (count % 8) { case 0: do { *to = *from++; case 7: *to = *from++; case 3: *to = *from++; case 1: *to = *from++; } while (--n > 0); } return n; }
long nest(long a, unsigned char b) { switch (a) { case 1: switch (b) { case 255: return 1; default: break; } case 0x100000000L: return 2; case -1: for (;;) { if (b) break; else continue; } default: a = 3; } while (1) switch (b) { case 1: continue; case 2: return a; default: goto end; } end: return 0; }
