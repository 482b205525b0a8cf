#define INTERNAL
#include "alloca1_definitions.h"

size_t total_strlen(const char *str1, const char *str2) {
    size_t *sz = __builtin_alloca_with_align_and_max(sizeof(size_t), 32, 100);
    if (((uintptr_t) sz) % 32 != 0) {
        return (size_t) -1;
    }
    size_t sz1 = strlen(str1);
    size_t sz2 = strlen(str2);
    char *result = alloca(sz1 + sz2 + 1);
    strcpy(result, str1);
    strcat(result, str2);
    char *result2 = __builtin_alloca_with_align(sz1 + sz2 + 1, 16);
    if (((uintptr_t) result2) % 16 != 0) {
        return (size_t) -1;
    }
    strcpy(result2, result);
    *sz = strlen(result2);
    return *sz;
}
