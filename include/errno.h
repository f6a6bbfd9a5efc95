#ifndef V_ERRNO
#define V_ERRNO
extern int errno;
#endif
