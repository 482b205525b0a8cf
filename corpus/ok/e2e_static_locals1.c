#include "static_locals1_definitions.h"

const char *getstr1() {
    static const char value[] = "Hello, cruel WORLD!";
    return value;
}

const char *getstr2() {
    static const char value[] = "";
    return value;
}

const char *getstr3() {
    static const char value[] = "Test...test...test...";
    return value;
}

const char *getstr4() {
    static const char value2[] = "\n\n\t\t   ";
    return value2;
}

const char *getstr5() {
    static const char value[] = "Some value\n\t ?";
    return value;
}
