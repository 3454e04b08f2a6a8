#ifndef IMU_STDLIB_H
#define IMU_STDLIB_H
#include <stddef.h>
int abs(int);
long labs(long);
#endif
