#ifndef V_STDIO
#define V_STDIO
#include <stddef.h>
typedef struct __v_FILE FILE;
extern FILE *stdin; extern FILE *stdout; extern FILE *stderr;
#define EOF (-1)
int printf(const char *f, ...);
int fprintf(FILE *s, const char *f, ...);
int sprintf(char *s, const char *f, ...);
int snprintf(char *s, size_t n, const char *f, ...);
int puts(const char *s);
int putchar(int c);
int fputs(const char *s, FILE *f);
int fputc(int c, FILE *f);
FILE *fopen(const char *n, const char *m);
int fclose(FILE *f);
int fflush(FILE *f);
size_t fwrite(const void *p, size_t s, size_t n, FILE *f);
void perror(const char *s);
#endif
