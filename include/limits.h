#ifndef V_LIM
#define V_LIM
#define INT_MAX 2147483647
#define LONG_MAX 9223372036854775807L
#define ULONG_MAX 18446744073709551615UL
#endif
