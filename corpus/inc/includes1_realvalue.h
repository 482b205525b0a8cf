#ifndef REALVALUE
#define REALVALUE 271828

#endif
