#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

extern _Thread_local long external_counter;

long get_counter();
void advance_counter();
void import_counter();
void save_counter();
void restore_counter();
int reset_counter();

#endif
