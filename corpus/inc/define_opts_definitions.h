#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern const int is_kefir_end2end_test;
extern const int kefir_end2end_version;

#endif
