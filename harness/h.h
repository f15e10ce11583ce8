// Shared helpers for the harnesses. Every buffer is an exact-size heap block, so an access one byte
// outside it is an error under the executor and under the native ASan replay alike.
#pragma once
#include "usym.h"
#include <stdlib.h>
#include <string.h>
#include <string>
#define ASSERT(c, m) usym_assert((c) ? 1 : 0, m)
#define ASSUME(c) usym_assume((c) ? 1 : 0)
#define REACH(l) usym_reach(l)
static inline uint8_t *exact(size_t n) { uint8_t *p = (uint8_t *)malloc(n ? n : 1); if (n == 0) { free(p); p = (uint8_t *)malloc(0); } return p; }
static inline uint8_t *filled(size_t n, uint8_t v) { uint8_t *p = exact(n); for (size_t i = 0; i < n; i++) p[i] = v; return p; }
static inline uint8_t *symbuf(size_t n, const char *name) { uint8_t *p = exact(n); if (n) usym_sym(p, n, name); return p; }
static inline uint64_t pick(const char *name, uint64_t lo, uint64_t hi) { if (lo == hi) return lo; return usym_concretize(usym_int(name, lo, hi)); }
// branch-free equality of two byte ranges (one solver term, no forking)
static inline int eq(const void *a, const void *b, size_t n) {
  const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b; uint8_t d = 0;
  for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
  return d == 0;
}
static inline int allv(const void *a, size_t n, uint8_t v) { const uint8_t *x = (const uint8_t *)a; uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= x[i] ^ v; return d == 0; }
static inline uint8_t *dup(const void *p, size_t n) { uint8_t *q = exact(n); if (n) memcpy(q, p, n); return q; }
#define BI(n) unsigned _BitInt(n)
