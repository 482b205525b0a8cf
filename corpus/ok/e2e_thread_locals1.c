#include "thread_locals1_definitions.h"

_Thread_local long counter = 0;
extern _Thread_local long external_counter;
static _Thread_local long saved_counter;

long get_counter() {
    return counter;
}

void advance_counter() {
    counter++;
}

void import_counter() {
    counter = external_counter;
}

void save_counter() {
    saved_counter = counter;
}

void restore_counter() {
    counter = saved_counter;
}

int reset_counter() {
    static _Thread_local int resets = 0;
    counter = 0;
    return ++resets;
}
