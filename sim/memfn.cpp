// memory functions of the server with validity checks (only when checking is on)
#include "alloc.h"
#include "sim.h"
#include <dlfcn.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
using namespace sim;
#define CHK (g_on && g_memcheck && thread_is_server())
template <class F> static F rl(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
// wrappers used for calls made by the server's own objects (renamed at link time by --wrap)
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
char *__real_strcpy(char *, const char *); char *__real_strncpy(char *, const char *, size_t); char *__real_strcat(char *, const char *);
size_t __real_strlen(const char *); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (CHK) { mem_check(d, n, true, "memcpy"); mem_check(s, n, false, "memcpy"); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (CHK) { mem_check(d, n, true, "memmove"); mem_check(s, n, false, "memmove"); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (CHK) mem_check(d, n, true, "memset"); return __real_memset(d, c, n); }
char *__wrap_strcpy(char *d, const char *s) { if (CHK) { size_t n = __real_strlen(s) + 1; mem_check(s, n, false, "strcpy"); mem_check(d, n, true, "strcpy"); } return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (CHK) { mem_check(d, n, true, "strncpy"); } return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { if (CHK) { size_t a = __real_strlen(d), n = __real_strlen(s) + 1; mem_check(d + a, n, true, "strcat"); } return __real_strcat(d, s); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (CHK) mem_check(s, n + 1, false, "strlen"); return n; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { return __real_memcmp(a, b, n); }
}
