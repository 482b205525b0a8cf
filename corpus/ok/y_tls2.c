extern _Thread_local int ta[];
extern _Thread_local int ta[4];
extern _Thread_local int (*tp[])[];
extern _Thread_local int (*tp[2])[3];
_Thread_local int td[];
_Thread_local int td[5];
static _Thread_local struct { int a; const char *s; } tinit = {3, "thread"};
static _Thread_local int (*fp[2])(int);
_Thread_local double dd[3] = {1, [2] = 3};
extern int oa[];
extern int oa[7];
int oa[7];
static int sa[3];
extern int sa[];
int (*vf(int (*)[], int (*)(int (*)[])))[];
int (*vf(int (*)[4], int (*)(int (*)[4])))[6];
int use(int i) {
    extern _Thread_local int (*tp[2])[3];
    extern int oa[7];
    return ta[i] + td[i] + oa[i] + sa[i] + tinit.a + (int) dd[i] + (fp[0] != 0) + (*tp[0])[i];
}
