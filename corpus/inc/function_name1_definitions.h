#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

const char *function1();
const char *get_fn_name();
const char *another_function();
const char *fourth_procedure();

#endif
