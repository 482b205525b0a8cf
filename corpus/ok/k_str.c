const char *a = "plain" " concat\t\"q\"\\ \a\b\f\v\0z \x7f";
const char *u8s = u8"é中"; unsigned short *u16 = u"é\u4e2d"; unsigned *u32 = U"\U0001F600"; int *w = L"wide\n"; int c = 'ab', d = '\'', e = L'é', f = u'x', g = U'y';
const char *fn(void) { return __func__; } char arr[10] = "short"; char big[] = u8"x" "y"; unsigned long n = sizeof "abc";
