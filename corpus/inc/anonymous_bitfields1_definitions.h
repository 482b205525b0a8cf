#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

struct Structure1 {
    int i : 10, : 5, j : 11;
    long : 34;
    short k : 7, : 1, m : 6;
};

extern struct Structure1 S1;

struct Structure1 fills(int);

#endif
