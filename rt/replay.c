// Native implementation of the harness intrinsics: replays one assignment against the real build.
#include "usym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { char k; char *name; unsigned char *a; size_t an; unsigned char *b; size_t bn; } rec;
static rec *recs; static size_t nrec, cur; static int tableMode;
static char *pnames[64]; static long pvals[64]; static int np;
static unsigned char *unhex(const char *s, size_t *n) { size_t l = strlen(s) / 2; unsigned char *r = (unsigned char *)malloc(l + 1); for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); r[i] = v; } *n = l; return r; }
void harness_entry(void);
static void next(const char *name, unsigned char *out, size_t n) {
  while (cur < nrec && recs[cur].k != 'I') cur++;
  if (cur >= nrec || strcmp(recs[cur].name, name) || recs[cur].an != n) { printf("REPLAY-MISMATCH want %s/%zu\n", name, n); fflush(stdout); _Exit(103); }
  memcpy(out, recs[cur].a, n); cur++;
}
void usym_sym(void *p, size_t n, const char *name) { unsigned char *t = (unsigned char *)malloc(n + 1); next(name, t, n); memcpy(p, t, n); free(t); }
uint64_t usym_int(const char *name, uint64_t lo, uint64_t hi) { unsigned char t[8]; next(name, t, 8); uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | t[i]; if (v < lo || v > hi) { printf("REPLAY-MISMATCH range\n"); fflush(stdout); _Exit(103); } return v; }
uint64_t usym_concretize(uint64_t v) { return v; }
void usym_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(102); } }
void usym_assert(int c, const char *m) { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _Exit(101); } }
void usym_reach(const char *l) { printf("REACH %s\n", l); }
void usym_kill(void) { printf("KILL\n"); fflush(stdout); _Exit(102); }
void usym_trunc(const char *w) { printf("TRUNC %s\n", w); fflush(stdout); _Exit(102); }
long usym_param(const char *n, long d) { for (int i = 0; i < np; i++) if (!strcmp(pnames[i], n)) return pvals[i]; return d; }
static size_t cur2; // answers of usym_same and usym_is_symbolic, in order
static int answer(void) { while (cur2 < nrec && recs[cur2].k != 'S') cur2++; if (cur2 >= nrec) { printf("REPLAY-MISMATCH want same\n"); fflush(stdout); _Exit(103); } return recs[cur2++].a[0]; }
int usym_same_here(const void *a, const void *b, size_t n) { (void)a; (void)b; (void)n; return answer(); }
int usym_same(const void *a, const void *b, size_t n) { (void)a; (void)b; (void)n; return answer(); }
int usym_is_symbolic(const void *p, size_t n) { (void)p; (void)n; return tableMode ? answer() : 0; }
int usym_uf_try(const char *fn, const void *in, size_t inlen, void *out, size_t outlen) {
  if (tableMode) for (size_t i = 0; i < nrec; i++) if (recs[i].k == 'U' && !strcmp(recs[i].name, fn) && recs[i].an == inlen && recs[i].bn == outlen && !memcmp(recs[i].a, in, inlen)) { memcpy(out, recs[i].b, outlen); return 1; }
  return 0;
}
void usym_uf(const char *fn, const void *in, size_t inlen, void *out, size_t outlen) { if (!usym_uf_try(fn, in, inlen, out, outlen)) { // unconstrained application: any fixed function will do
    uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < inlen; i++) h = (h ^ ((const unsigned char *)in)[i]) * 1099511628211ULL; for (const char *c = fn; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL;
    for (size_t i = 0; i < outlen; i++) { h = (h ^ i) * 1099511628211ULL; ((unsigned char *)out)[i] = h >> 32; } } }
void usym_uf_fact(const char *fn, const void *in, size_t inlen, const void *out, size_t outlen) { (void)fn; (void)in; (void)inlen; (void)out; (void)outlen; }
void usym_linear(int on) { (void)on; }
void usym_merge(int on) { (void)on; }
// live heap blocks, counted by ASan's allocation hooks (0 in builds without them)
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));
static uint64_t live; static void hm(const volatile void *p, size_t n) { (void)n; if (p) live++; } static void hf(const volatile void *p) { if (p) live--; }
uint64_t usym_heap_count(void) { static int on; if (!on && __sanitizer_install_malloc_and_free_hooks) { on = 1; live = 1 << 20; __sanitizer_install_malloc_and_free_hooks(hm, hf); } return live; }
void usym_print(const char *n, uint64_t v) { printf("PRINT %s %llu\n", n, (unsigned long long)v); }
int usym_strz_concrete(const char *s) { (void)s; return 0; }
char *usym_strchr_native(const char *s, int c) { (void)s; (void)c; return 0; }
uint64_t usym_objsize(const void *p) { (void)p; return 0; }
int usym_replaying(void) { return 1; }
int main(int argc, char **argv) {
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf); // no allocation by printf while the harness counts
  FILE *f = fopen(argv[1], "r"); if (!f) return 104;
  size_t cap = 1 << 22; char *line = (char *)malloc(cap);
  while (fgets(line, cap, f)) {
    char *t = strtok(line, " \n"); if (!t) continue;
    recs = (rec *)realloc(recs, (nrec + 1) * sizeof(rec)); rec *r = &recs[nrec]; memset(r, 0, sizeof *r);
    if (*t == 'I') { r->k = 'I'; r->name = strdup(strtok(0, " \n")); char *h = strtok(0, " \n"); r->a = unhex(h ? h : "", &r->an); if (r->name[0] == '?') r->k = 'S'; nrec++; }
    else if (*t == 'U') { r->k = 'U'; r->name = strdup(strtok(0, " \n")); r->a = unhex(strtok(0, " \n"), &r->an); r->b = unhex(strtok(0, " \n"), &r->bn); nrec++; }
    else if (*t == 'P') { pnames[np] = strdup(strtok(0, " \n")); pvals[np++] = strtol(strtok(0, " \n"), 0, 0); }
    else if (*t == 'T') tableMode = 1;
  }
  fclose(f); free(line);
  harness_entry(); printf("DONE\n"); return 0;
}
