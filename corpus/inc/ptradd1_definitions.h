#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Struct1 {
    int arr[1];
};

int *ptradd(struct Struct1 *, int);

#endif
