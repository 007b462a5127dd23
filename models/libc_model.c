/* Reference bodies of the C string functions, analysed together with the library
   (never executed).  memcmp, memcpy, memset, malloc ... are built into the engine. */
#include <stddef.h>
#include <stdint.h>
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
void *memrchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  while (n > 0) { n--; if (p[n] == (unsigned char)c) return (void *)(p + n); }
  return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n > 0; n--, a++, b++) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
  return 0;
}
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) {
    if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
    if (!*a) return 0;
  }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
size_t strspn(const char *s, const char *a) {
  size_t n = 0;
  for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; }
  return n;
}
size_t strcspn(const char *s, const char *a) {
  size_t n = 0;
  for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; }
  return n;
}
