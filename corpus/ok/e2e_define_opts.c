#include "define_opts_definitions.h"

#ifdef KEFIR_END2END_TEST
const int is_kefir_end2end_test = 1;
#endif

#ifdef KEFIR_END2END
const int kefir_end2end_version = KEFIR_END2END;
#endif
