/* Exports the inline replacement functions of the build without a C library. */
#include <Zycore/LibC.h>
#include <Zycore/Types.h>
void* x_memchr(const void* s, int c, ZyanUSize n) { return ZYAN_MEMCHR(s, c, n); }
int x_memcmp(const void* a, const void* b, ZyanUSize n) { return ZYAN_MEMCMP(a, b, n); }
void* x_memcpy(void* d, const void* s, ZyanUSize n) { return ZYAN_MEMCPY(d, s, n); }
void* x_memmove(void* d, const void* s, ZyanUSize n) { return ZYAN_MEMMOVE(d, s, n); }
void* x_memset(void* d, int v, ZyanUSize n) { return ZYAN_MEMSET(d, v, n); }
char* x_strcat(char* d, const char* s) { return ZYAN_STRCAT(d, s); }
char* x_strchr(const char* s, int c) { return ZYAN_STRCHR(s, c); }
int x_strcmp(const char* a, const char* b) { return ZYAN_STRCMP(a, b); }
int x_strcoll(const char* a, const char* b) { return ZYAN_STRCOLL(a, b); }
char* x_strcpy(char* d, const char* s) { return ZYAN_STRCPY(d, s); }
ZyanUSize x_strcspn(const char* a, const char* b) { return ZYAN_STRCSPN(a, b); }
ZyanUSize x_strlen(const char* s) { return ZYAN_STRLEN(s); }
char* x_strncat(char* d, const char* s, ZyanUSize n) { return ZYAN_STRNCAT(d, s, n); }
int x_strncmp(const char* a, const char* b, ZyanUSize n) { return ZYAN_STRNCMP(a, b, n); }
char* x_strncpy(char* d, const char* s, ZyanUSize n) { return ZYAN_STRNCPY(d, s, n); }
char* x_strpbrk(const char* a, const char* b) { return ZYAN_STRPBRK(a, b); }
char* x_strrchr(const char* s, int c) { return ZYAN_STRRCHR(s, c); }
ZyanUSize x_strspn(const char* a, const char* b) { return ZYAN_STRSPN(a, b); }
char* x_strstr(const char* a, const char* b) { return ZYAN_STRSTR(a, b); }
char* x_strtok(char* s, const char* d) { return ZYAN_STRTOK(s, d); }
ZyanUSize x_strxfrm(char* d, const char* s, ZyanUSize n) { return ZYAN_STRXFRM(d, s, n); }
/* two calls of the tokenizer: the second one continues where the first one ended */
char* x_strtok_next(char* s, const char* d, const char* d2, char** first) { *first = ZYAN_STRTOK(s, d); return ZYAN_STRTOK(0, d2); }
