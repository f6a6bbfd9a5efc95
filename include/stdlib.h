#ifndef V_STDLIB
#define V_STDLIB
#include <stddef.h>
void *malloc(size_t n); void *calloc(size_t n, size_t s); void *realloc(void *p, size_t n); void free(void *p);
void exit(int c); void abort(void); int abs(int x); long labs(long x); int atoi(const char *s); double atof(const char *s);
char *getenv(const char *s);
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#endif
