#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

union Union1 {
    int f1;
    long f2 : 33;
    unsigned short f3 : 12;
    struct {
        unsigned int f4;
        unsigned long f5 : 30;
        unsigned long f6 : 15;
    };
    char f7 : 7;
    long f8 : 20;
};

extern unsigned int Uniont1Size;
extern unsigned int Uniont1Alignment;

union Union1 fillu(int);

#endif
