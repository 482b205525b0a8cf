#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

const char *get_build_timestamp();

#endif
