#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Structure1 {
    int x;
    void *ptr;
    long y;
};

extern struct Structure1 *GLOBAL_UNINIT_STATIC;

struct Structure1 *get_global_uninit_static();
struct Structure1 *get_local_uninit_static();

struct Structure1 *get_global_tlocal_uninit_static();
struct Structure1 *get_local_tlocal_uninit_static();

#endif
