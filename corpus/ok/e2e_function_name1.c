#include "function_name1_definitions.h"

#define DEFUN(_id)       \
    const char *_id() {  \
        return __func__; \
    }

DEFUN(function1)
DEFUN(get_fn_name)
DEFUN(another_function)
DEFUN(fourth_procedure)
