// libc string functions as plain code, executed symbolically with the code under test.
#include "usym.h"
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  if (usym_strcmp_ok(a, b)) return usym_strcmp_native(a, b); // one text concrete: one term, no forking
  while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
char *strchr(const char *s, int c) {
  if (usym_strz_concrete(s)) return usym_strchr_native(s, c);
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
void *malloc(size_t n); void free(void *p); void *memcpy(void *d, const void *s, size_t n);
void *realloc(void *p, size_t n) {
  n = usym_concretize(n); if (p && !n) { free(p); return 0; }
  void *q = malloc(n); if (p) { size_t o = usym_objsize(p); memcpy(q, p, o < n ? o : n); free(p); } return q;
}
// blinding randomness: one fixed sequence
static unsigned rnd_state = 12345;
int rand(void) { rnd_state = rnd_state * 1103515245u + 12345u; return (int)((rnd_state >> 1) & 0x7fffffff); }
void srand(unsigned s) { rnd_state = s; }
