typedef struct { int s : 5; unsigned u : 7; long l; unsigned long ul; } B;
int si; unsigned ui; signed char sc; unsigned char uc; short ss; unsigned short us; long sl; unsigned long ul; float f; double d; long double ld; _Bool b; int *p;
void ops(B *x, int n) {
    si %= n; ui %= 7u; si >>= 1; ui >>= 1; si /= 3; ui /= 3; si <<= 2; ui <<= 2;
    sc %= 5; uc %= 5; sc >>= 1; uc >>= n; sl /= n; ul /= n; sl %= 9; ul %= 9ul; sl >>= 3; ul >>= 3;
    ss *= 3; us *= 3; ss -= us; us += ss; si &= 6; ui |= 5; si ^= ui; ul &= si; sl |= uc;
    f += 1; d -= f; ld *= d; f /= ld; d += si; si += d; ui -= f; ul *= ld;
    b |= 1; b += 2; b &= si; p += n; p -= 2; p++; --p; f++; --d; ld--; b++; b--;
    x->s += 3; x->u -= 2; x->s >>= 1; x->u >>= 1; x->s %= 3; x->u %= 3; x->l %= 4; x->ul /= 4; x->s++; --x->u; x->u *= x->s;
    int r = si < ui | ss < us | sl >= ul | f > d | d <= ld | si == sc | p != 0 | !f | !p | -si | ~ui | +uc;
    si = r ? si % n : ui % n; ui = (unsigned) si / 3u + (long) ui / 3 + (unsigned char) n % 3u; sl = si * ui - uc + (sc << 3) - (us >> 2);
}
