#define KEFIR_END2END_ENABLED 1
#define FORCED_SEEN 1
