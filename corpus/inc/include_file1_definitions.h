#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

int get_value();

#endif
