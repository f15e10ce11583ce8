// BIP39 mnemonics.
#include "h.h"
#include "Bitcoin.h"
#include "Hash.h"
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/bip39.h"
}
// index of word i: bits 11i..11i+10 of entropy followed by the first bits of its hash
static uint32_t widx(const uint8_t *bits, int i) { uint32_t v = 0; int b = 11 * i; for (int k = 0; k < 3; k++) v = v << 8 | (b / 8 + k < 33 ? bits[b / 8 + k] : 0); return (v >> (13 - b % 8)) & 2047; }
static void fill(uint8_t *e, int n) { for (int i = 0; i < n; i++) e[i] = (uint8_t)usym_param("fill", 0); }
static int same(const char *m, const uint8_t *bits, int words) { // text = the words joined by single spaces
  const char *const *wl = mnemonic_wordlist(); int ok = 1; size_t p = 0;
  for (int i = 0; i < words; i++) { uint32_t k = widx(bits, i); const char *w = wl[k]; size_t l = strlen(w); ok &= eq(m + p, w, l); p += l; ok &= m[p] == (i + 1 < words ? ' ' : 0); p++; }
  return ok;
}
extern "C" void h_wordlist() { // the published English list, by its digest; words sorted, 3..8 letters
  static const uint8_t D[32] = {0x2f,0x5e,0xed,0x53,0xa4,0x72,0x7b,0x4b,0xf8,0x88,0x0d,0x8f,0x3f,0x19,0x9e,0xfc,0x90,0xe5,0x85,0x03,0x64,0x6d,0x9f,0xf8,0xef,0xf3,0xa2,0xed,0x3b,0x24,0xdb,0xda};
  const char *const *wl = mnemonic_wordlist(); char *t = (char *)malloc(20000); size_t n = 0; int i = 0; for (; wl[i] && i < 2100; i++) { size_t l = strlen(wl[i]); if (n + l + 1 > 20000) break; memcpy(t + n, wl[i], l); n += l; t[n++] = '\n'; }
  ASSERT(i == 2048, "2048 words"); uint8_t d[32]; sha256_Raw((uint8_t *)t, n, d); ASSERT(eq(d, D, 32), "the word list is the English BIP39 list"); REACH("list");
}
extern "C" void h_from_entropy() { // entropy bytes at..at+k-1 symbolic, the rest fixed
  int n = usym_param("n", 16), at = usym_param("at", 0), k = usym_param("k", 1), words = n * 3 / 4; uint8_t *e = exact(n); fill(e, n); uint8_t *s = symbuf(k, "entropy"); memcpy(e + at, s, k);
  uint8_t bits[33], h[32]; memset(bits, 0, 33); memcpy(bits, e, n); sha256_Raw(e, n, h); if (usym_param("sum", -1) >= 0) ASSUME(h[0] == usym_param("sum", 0)); bits[n] = h[0];
  const char *m = usym_param("form", 0) ? generateMnemonic((uint8_t)words, e, n) : mnemonicFromEntropy(e, n); ASSERT(m != NULL, "a mnemonic is made");
  if (usym_param("form", 0)) { memcpy(bits, h, n); sha256_Raw(bits, n, h); bits[n] = h[0]; }
  ASSERT(same(m, bits, words), "the words encode the entropy followed by the checksum bits"); REACH("made");
}
extern "C" void h_from_len() { // which lengths are accepted
  int n = usym_param("n", 0); uint8_t *e = symbuf(n, "entropy"); ASSERT(mnemonicFromEntropy(e, n) == NULL, "only 16, 20, 24, 28 and 32 bytes of entropy make a mnemonic"); REACH("refused");
}
extern "C" void h_gen_words() { uint8_t w = (uint8_t)usym_int("words", 0, 255); ASSUME((w < 12) | (w > 24) | (w % 3 != 0)); uint8_t *e = filled(4, 1); ASSERT(generateMnemonic(w, e, 4) == NULL && generateMnemonic(w) == NULL, "only 12, 15, 18, 21 and 24 words"); REACH("refused"); }
// words known up to one, which is any of the 2048 (or any text): parsing
static char *phrase(int words, int at, const char *w, int last) { const char *const *wl = mnemonic_wordlist(); char *t = (char *)malloc(300); size_t n = 0;
  for (int i = 0; i < words; i++) { const char *x = i == at ? w : wl[i == words - 1 ? last : (usym_param("fill", 0) + i) & 2047]; size_t l = strlen(x); memcpy(t + n, x, l); n += l; t[n++] = i + 1 < words ? ' ' : 0; }
  char *r = (char *)malloc(n); memcpy(r, t, n); free(t); return r; }
extern "C" void h_short_out() { int words = usym_param("words", 12), n = words * 4 / 3; char *t = phrase(words, -1, "", 3); uint8_t *o = filled(n - 1, 0x5a); size_t cap = pick("cap", 0, n - 1); ASSERT(mnemonicToEntropy(std::string(t), o, cap) == 0 && allv(o, n - 1, 0x5a), "an output buffer that is too small is refused, unwritten"); REACH("small"); }
extern "C" void h_word_text() { // one word is any text (its first letters may be fixed), the others are known words
  int words = usym_param("words", 12), at = usym_param("at", 11), n = usym_param("len", 3), nb = words * 4 / 3; const char *const *wl = mnemonic_wordlist(); char *w = (char *)exact(n + 1); usym_sym(w, n, "word"); w[n] = 0;
  if (usym_param("like", -1) >= 0) memcpy(w, wl[usym_param("like", 0)], usym_param("keep", 1)); for (int i = 0; i < n; i++) ASSUME((w[i] != 0) & (w[i] != ' '));
  char *t = phrase(words, at, w, 5); uint8_t *o = filled(nb, 0x5a); size_t r = mnemonicToEntropy(t, strlen(t), o, nb); bool good = checkMnemonic(std::string(t));
  uint32_t known = 0, k = 0; for (int i = 0; i < 2048; i++) if (strlen(wl[i]) == (size_t)n) { uint32_t e = eq(w, wl[i], n); known |= e; k |= (0 - e) & i; }
  ASSERT((r != 0) == (known != 0), "only words of the list are accepted"); if (!r) { REACH("unknown"); ASSERT(!good, "not a valid mnemonic"); ASSERT(allv(o, nb, 0x5a), "nothing written"); return; }
  uint32_t idx[24]; for (int i = 0; i < words; i++) idx[i] = (usym_param("fill", 0) + i) & 2047; idx[words - 1] = 5; idx[at] = k;
  uint8_t bits[33]; memset(bits, 0, 33); for (int i = 0; i < words; i++) for (int b = 0; b < 11; b++) { int z = 11 * i + b; bits[z / 8] |= ((idx[i] >> (10 - b)) & 1) << (7 - z % 8); }
  ASSERT(r == (size_t)nb && eq(o, bits, nb), "the words give back the entropy they encode");
  uint8_t h[32]; sha256_Raw(bits, nb, h); uint8_t mask = (uint8_t)(0xff00 >> (words / 3)); ASSERT(good == (((h[0] ^ bits[nb]) & mask) == 0), "a mnemonic is accepted exactly when its checksum is right"); REACH(good ? "good" : "bad");
}
extern "C" void h_sum() { // the hash of the entropy is arbitrary here: which checksum bits count
  int words = usym_param("words", 12), nb = words * 4 / 3; static const int L[] = {0, 1, 2, 4, 8, 16, 64, 128, 255, 1024, 2047}; int last = L[pick("last", 0, 10)]; char *t = phrase(words, -1, "", last); bool good = checkMnemonic(std::string(t));
  uint8_t bits[33]; memset(bits, 0, 33); for (int i = 0; i < words; i++) { uint32_t x = i == words - 1 ? last : (usym_param("fill", 0) + i) & 2047; for (int b = 0; b < 11; b++) { int z = 11 * i + b; bits[z / 8] |= ((x >> (10 - b)) & 1) << (7 - z % 8); } }
  uint8_t h[32]; sha256_Raw(bits, nb, h); uint8_t mask = (uint8_t)(0xff00 >> (words / 3)); ASSERT(good == (((h[0] ^ bits[nb]) & mask) == 0), "a mnemonic is accepted exactly when its checksum is right"); REACH(good ? "good" : "bad");
}
extern "C" void h_word_count() { // k words
  int k = usym_param("words", 11), bad = usym_param("bad", 0); char *t = phrase(k, -1, "", 0); size_t n = strlen(t); uint8_t *o = filled(64, 0x5a); if (bad) { size_t p = pick("pos", 0, n); char *u = (char *)malloc(n + 2); memcpy(u, t, p); u[p] = ' '; strcpy(u + p + 1, t + p); t = u; }
  size_t r = mnemonicToEntropy(t, strlen(t), o, 64); ASSERT(r == 0, "a text that is not 12, 15, 18, 21 or 24 known words joined by single spaces is refused"); ASSERT(!checkMnemonic(std::string(t)), "not a valid mnemonic"); ASSERT(allv(o, 64, 0x5a), "nothing written"); REACH("refused");
}
extern "C" void h_gen() { // the entropy is the beginning of the hash of whatever is given
  size_t n = usym_param("n", 3); int words = usym_param("words", 12), form = usym_param("form", 0); uint8_t *e = symbuf(n, "entropy"), h[32]; sha256_Raw(e, n, h);
  char ref[300]; const char *m = mnemonicFromEntropy(h, words * 4 / 3); strcpy(ref, m); size_t l = strlen(ref); std::string s((const char *)e, n);
  if (form == 0) m = generateMnemonic((uint8_t)words, e, n); else if (form == 1) m = generateMnemonic((uint8_t)words, s); else if (form == 2) m = generateMnemonic(e, n); else m = generateMnemonic(s);
  ASSERT(m != NULL && eq(m, ref, l + 1), "the mnemonic is made of the hash of all the given bytes"); REACH("gen");
}
// ---- seed
static void ref512(const uint8_t *m, size_t n, uint8_t *o) { sha512_Raw(m, n, o); }
static void refhmac(const uint8_t *key, size_t kl, const uint8_t *msg, size_t n, uint8_t *out) {
  uint8_t k[128], t[64]; memset(k, 0, 128); if (kl > 128) ref512(key, kl, k); else memcpy(k, key, kl);
  uint8_t *a = (uint8_t *)malloc(128 + n), b[192]; for (int i = 0; i < 128; i++) { a[i] = k[i] ^ 0x36; b[i] = k[i] ^ 0x5c; } memcpy(a + 128, msg, n); ref512(a, 128 + n, t); memcpy(b + 128, t, 64); ref512(b, 192, out); free(a);
}
static void refseed(const uint8_t *m, size_t ml, const uint8_t *p, size_t pl, uint8_t *seed) {
  uint8_t *s = (uint8_t *)malloc(12 + pl), u[64]; memcpy(s, "mnemonic", 8); memcpy(s + 8, p, pl); s[8 + pl] = s[9 + pl] = s[10 + pl] = 0; s[11 + pl] = 1; refhmac(m, ml, s, 12 + pl, u); memcpy(seed, u, 64);
  for (int i = 1; i < 2048; i++) { refhmac(m, ml, u, 64, u); for (int j = 0; j < 64; j++) seed[j] ^= u[j]; } free(s);
}
static char *ctext(size_t n, const char *name) { char *t = (char *)exact(n + 1); if (n) usym_sym(t, n, name); t[n] = 0; for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); return t; }
static void pcb(uint32_t c, uint32_t t) { ASSERT(c <= t, "progress"); }
extern "C" void h_toseed() { // the second of two calls, after whatever the first left in the cache
  size_t ml = usym_param("ml", 3), pl = usym_param("pl", 2), pl2 = usym_param("pl2", pl); char *m = ctext(ml, "mnemonic"), *p = ctext(pl, "password"), *q = ctext(pl2, "password2"), *m2 = usym_param("same", 0) & 1 ? (char *)dup(m, ml + 1) : ctext(ml, "mnemonic2"); if (usym_param("same", 0) & 2) q = (char *)dup(p, pl + 1);
  size_t sp = usym_param("share", 0); if (sp) { if (m2 != m) memcpy(m2, m, sp < ml ? sp : ml - 1); if (q != p && pl == pl2) memcpy(q, p, sp < pl ? sp : pl - 1); } // long common beginnings
  if (usym_param("same", 0) == 0) ASSUME(!eq(m, m2, ml)); else if (usym_param("same", 0) == 1 && pl == pl2) ASSUME(!eq(p, q, pl)); else if (usym_param("same", 0) == 2) ASSUME(!eq(m, m2, ml));
  uint8_t a[64], b[64], ra[64], rb[64]; size_t l = pl < 256 ? pl : 256, l2 = usym_param("same", 0) & 2 ? l : pl2 < 256 ? pl2 : 256; if (!usym_param("one", 0)) { mnemonic_to_seed(m, p, a, NULL); refseed((uint8_t *)m, ml, (uint8_t *)p, l, ra); ASSERT(eq(a, ra, 64), "seed of the first call"); }
  mnemonic_to_seed(m2, q, b, usym_param("cb", 0) ? pcb : NULL); if ((usym_param("same", 0) & 3) == 3) memcpy(rb, ra, 64); else refseed((uint8_t *)m2, ml, (uint8_t *)q, l2, rb); ASSERT(eq(b, rb, 64), "seed of the second call"); REACH("seeds");
}
static int ncb; static void cb(float) { ncb++; }
extern "C" void h_seed() {
  size_t ml = usym_param("ml", 20), pl = usym_param("pl", 0); int form = usym_param("form", 0); uint8_t *m = symbuf(ml, "mnemonic"), *p = symbuf(pl, "password"); if (form) { for (size_t i = 0; i < ml; i++) ASSUME(m[i]); for (size_t i = 0; i < pl; i++) ASSUME(p[i]); }
  uint8_t seed[64], I[64]; refseed(m, ml, p, pl, seed);
  refhmac((const uint8_t *)"Bitcoin seed", 12, seed, 64, I); uint8_t k[32]; BI(256) v = 0, nn = 0; static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; for (int i = 0; i < 32; i++) v = v << 8 | I[i]; for (int i = 0; i < 8; i++) nn = nn << 32 | N[i]; ASSUME((v != 0) & (v < nn));
  HDPrivateKey hd; std::string ms((char *)m, ml), ps((char *)p, pl);
  if (form == 0) hd.fromMnemonic((char *)m, ml, (char *)p, pl, &Testnet, usym_param("cb", 0) ? cb : NULL); else if (form == 1) hd.fromMnemonic(ms, ps, &Testnet); else if (form == 2) hd.fromMnemonic(ms.c_str(), ps.c_str(), &Testnet); else hd = HDPrivateKey(ms, ps, &Testnet);
  hd.getSecret(k); ASSERT(eq(k, I, 32), "master secret of a mnemonic and password"); ASSERT(eq(hd.chainCode, I + 32, 32), "chain code of a mnemonic and password"); ASSERT(hd.network == &Testnet && hd.depth == 0, "network and depth"); REACH("seed");
}
