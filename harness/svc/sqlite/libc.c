/* What SQLite needs of the C library, for the symbolic build only. */
#include <stddef.h>
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
size_t strcspn(const char *s, const char *set) { size_t n = 0; for (; s[n]; n++) for (const char *p = set; *p; p++) if (*p == s[n]) return n; return n; }
int __cxa_thread_atexit_impl(void (*f)(void *), void *o, void *d) { (void)f; (void)o; (void)d; return 0; }
