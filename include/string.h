#ifndef V_STRING
#define V_STRING
#include <stddef.h>
int strcmp(const char *a, const char *b); int strncmp(const char *a, const char *b, size_t n); size_t strlen(const char *s);
void *memcpy(void *d, const void *s, size_t n); void *memmove(void *d, const void *s, size_t n); void *memset(void *d, int c, size_t n);
char *strcpy(char *d, const char *s);
#endif
