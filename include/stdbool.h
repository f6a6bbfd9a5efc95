#ifndef V_BOOL
#define V_BOOL
#define bool _Bool
#define true 1
#define false 0
#endif
