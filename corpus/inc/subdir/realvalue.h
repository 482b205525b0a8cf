#ifndef REALVALUE
#define REALVALUE 314159

#endif
