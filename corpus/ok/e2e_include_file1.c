#include "include_file1_definitions.h"

#ifdef KEFIR_END2END_ENABLED
int get_value() {
    return 314;
}
#endif
