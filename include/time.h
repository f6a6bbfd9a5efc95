#ifndef V_TIME
#define V_TIME
#include <stddef.h>
typedef long time_t; typedef long clock_t;
#define CLOCKS_PER_SEC 1000000L
time_t time(time_t *t); double difftime(time_t a, time_t b); clock_t clock(void);
#endif
