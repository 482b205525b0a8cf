static inline int c_value(int x) { return x * B_VALUE; }
#ifdef FORCED_SEEN
extern int forced_seen;
#endif
