#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

const char *getstr1();
const char *getstr2();
const char *getstr3();
const char *getstr4();
const char *getstr5();

#endif
