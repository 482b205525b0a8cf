#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

union String {
    struct {
        struct {
            char str1[5];
            char str2[5];
        };
    };

    struct {
        char str[10];
    };
};

extern union String STRING;

union String init_string(char[5]);

#endif
