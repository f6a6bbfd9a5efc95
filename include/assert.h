#ifndef V_ASSERT
#define V_ASSERT
void assert(int c);
#endif
