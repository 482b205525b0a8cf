#include "bitfield_incdec1_definitions.h"

#define PREINC(_field)                          \
    void preinc_##_field(struct Structure *s) { \
        ++s->_field;                            \
    }
#define POSTINC(_field)                          \
    void postinc_##_field(struct Structure *s) { \
        s->_field++;                             \
    }
#define PREDEC(_field)                          \
    void predec_##_field(struct Structure *s) { \
        --s->_field;                            \
    }
#define POSTDEC(_field)                          \
    void postdec_##_field(struct Structure *s) { \
        s->_field--;                             \
    }

#define DEF_FIELD(_field) \
    PREINC(_field)        \
    POSTINC(_field)       \
    PREDEC(_field)        \
    POSTDEC(_field)

DEF_FIELD(a)
DEF_FIELD(b)
DEF_FIELD(c)
DEF_FIELD(d)
DEF_FIELD(e)