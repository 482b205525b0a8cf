const char *when = __DATE__ " " __TIME__;
#define W __TIME__
const char *again = W; int l = __LINE__;
