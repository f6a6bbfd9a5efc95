#ifndef V_STDDEF
#define V_STDDEF
typedef unsigned long size_t;
typedef long ptrdiff_t;
typedef long ssize_t;
#define NULL ((void*)0)
#endif
