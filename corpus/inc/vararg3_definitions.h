#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

#ifdef INTERNAL
#define va_list __builtin_va_list
#define va_start(vararg, paramN) __builtin_va_start((vararg), paramN)
#define va_arg(vararg, type) __builtin_va_arg((vararg), type)
#define va_copy(dest, src) __builtin_va_copy((dest), (src))
#define va_end(vararg) __builtin_va_end((vararg))
#else
#include <stdarg.h>
#endif

int zeros(int, ...);

#endif
