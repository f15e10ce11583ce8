// Intrinsics understood by the symbolic executor (engine/usym.cpp) and, in the
// native replay build, by rt/replay.c.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void usym_sym(void *p, size_t n, const char *name);              // n fresh symbolic bytes
uint64_t usym_int(const char *name, uint64_t lo, uint64_t hi);   // fresh integer in [lo,hi]
uint64_t usym_concretize(uint64_t v);                            // case split on every value
void usym_assume(int c);
void usym_assert(int c, const char *msg);
void usym_reach(const char *label);                              // reachability witness
void usym_kill(void);                                            // path outside the harness' scope
void usym_trunc(const char *why);                                // path outside the stated bound
long usym_param(const char *name, long dflt);
int usym_same(const void *a, const void *b, size_t n); // provably equal whatever the inputs are
int usym_same_here(const void *a, const void *b, size_t n); // on this path
int usym_is_symbolic(const void *p, size_t n);
void usym_uf(const char *fn, const void *in, size_t inlen, void *out, size_t outlen);
int usym_uf_try(const char *fn, const void *in, size_t inlen, void *out, size_t outlen); // 0 if all inputs concrete
void usym_uf_fact(const char *fn, const void *in, size_t inlen, const void *out, size_t outlen); // value computed by the real code
void usym_merge(int on);
void usym_linear(int on); // normalise conditions over GF(2)
uint64_t usym_heap_count(void);
void usym_print(const char *name, uint64_t v);
int usym_strz_concrete(const char *s);
char *usym_strchr_native(const char *s, int c);
int usym_strcmp_ok(const char *a, const char *b);
int usym_strcmp_native(const char *a, const char *b);
int usym_replaying(void); // 0 under the symbolic executor
uint64_t usym_objsize(const void *p);
#ifdef __cplusplus
}
#endif
static inline int usym_range(int c) { return c; }
