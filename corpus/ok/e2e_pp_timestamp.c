#define INTERNAL
#include "pp_timestamp_definitions.h"

const char *get_build_timestamp() {
    return __DATE__ " " __TIME__;
}
