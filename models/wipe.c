/* Callers of the wipe primitive whose buffer dies right afterwards (analysed in the optimised build, never run). */
#include <fingera_libc/cleanse.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
extern void wit_sink(void *p, size_t n);
static unsigned sum(const unsigned char *p, size_t n) { unsigned r = 0; for (size_t i = 0; i < n; i++) r = r * 31 + p[i]; return r; }
unsigned wit_local(const unsigned char *in) {
  unsigned char b[32]; memcpy(b, in, sizeof b);
  unsigned r = sum(b, sizeof b);
  fingera_cleanse(b, sizeof b); return r;
}
unsigned wit_words(const unsigned char *in) {
  uint32_t w[16]; memcpy(w, in, sizeof w);
  for (int i = 1; i < 16; i++) w[i] += w[i - 1] ^ (w[i] >> 3);
  unsigned r = w[15];
  fingera_cleanse(w, sizeof w); return r;
}
unsigned wit_variable(const unsigned char *in, size_t n) {
  unsigned char b[64]; if (n > sizeof b) return 0;
  memcpy(b, in, n);
  unsigned r = sum(b, n);
  fingera_cleanse(b, n); return r;
}
unsigned wit_escaping(const unsigned char *in) {
  unsigned char b[48]; memcpy(b, in, sizeof b);
  wit_sink(b, sizeof b);
  unsigned r = sum(b, sizeof b);
  fingera_cleanse(b, sizeof b); return r;
}
unsigned wit_heap(const unsigned char *in, size_t n) {
  unsigned char *b = malloc(n); if (!b) return 0;
  memcpy(b, in, n);
  unsigned r = sum(b, n);
  fingera_cleanse(b, n); free(b); return r;
}
unsigned wit_heap_escaping(const unsigned char *in, size_t n) {
  unsigned char *b = malloc(n); if (!b) return 0;
  memcpy(b, in, n); wit_sink(b, n);
  unsigned r = sum(b, n);
  fingera_cleanse(b, n); free(b); return r;
}
unsigned wit_branch(const unsigned char *in, int fail) {
  struct { unsigned char k[32], c[32]; } b; memcpy(&b, in, sizeof b);
  if (fail) { fingera_cleanse(&b, sizeof b); return 0; }
  unsigned r = sum(b.k, 32) ^ sum(b.c, 32);
  fingera_cleanse(&b, sizeof b); return r;
}
unsigned wit_two(const unsigned char *in) {
  unsigned char a[20], c[64]; memcpy(a, in, sizeof a); memcpy(c, in + 20, sizeof c);
  unsigned r = sum(a, sizeof a) + sum(c, sizeof c);
  fingera_cleanse(a, sizeof a); fingera_cleanse(c, sizeof c); return r;
}
unsigned wit_loop(const unsigned char *in, size_t n) {
  unsigned r = 0;
  for (size_t i = 0; i < n; i++) {
    unsigned char b[16]; memcpy(b, in + 16 * i, 16); r += sum(b, 16);
    fingera_cleanse(b, 16);
  }
  return r;
}
