#ifndef DEFINITIONS_H_
#define DEFINITIONS_H_

long cast_uchar(long);
long cast_char(long);
long cast_ushort(long);
long cast_short(long);
long cast_uint(long);
long cast_int(long);

#endif
