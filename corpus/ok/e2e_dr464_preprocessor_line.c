#include "dr464_preprocessor_line_definitions.h"

const int Lines[4] = {__LINE__,
#line __LINE__ "test"
                      __LINE__,
#line 1
                      __LINE__,
#line __LINE__ "test"
                      __LINE__};
