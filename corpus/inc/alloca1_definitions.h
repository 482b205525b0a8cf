#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

#ifdef INTERNAL
typedef unsigned long size_t;
typedef unsigned long uintptr_t;
size_t strlen(const char *);
char *strcpy(char *, const char *);
char *strcat(char *, const char *);
#define alloca(sz) __builtin_alloca((sz))
#else
#include <stdlib.h>
#endif

size_t total_strlen(const char *, const char *);

#endif
