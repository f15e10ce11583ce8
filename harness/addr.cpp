// Segwit addresses (BIP173), scripts and addresses.
#include "h.h"
#include "Bitcoin.h"
#include "Conversion.h"
#include "Hash.h"
#include "OpCodes.h"
extern "C" {
#include "utility/segwit_addr.h"
}
static const char CS[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static const char *HRPS[] = {"bc", "tb", "bcrt", "a"};
// independent BIP173 reference
static uint32_t pm(uint32_t c, uint8_t v) {
  uint32_t b = c >> 25; c = ((c & 0x1ffffff) << 5) ^ v;
  static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  for (int i = 0; i < 5; i++) c ^= (0u - ((b >> i) & 1)) & G[i];
  return c;
}
static uint8_t chr5(uint8_t v) { return CS[v & 31]; }
static uint8_t REV[256]; static int revInit;
static void initRev() { memset(REV, 255, 256); for (int i = 0; i < 32; i++) REV[(uint8_t)CS[i]] = i; revInit = 1; }
static uint8_t val5(uint8_t c) { if (!revInit) initRev(); return REV[c]; }
static uint8_t lower(uint8_t c) { return c + (uint8_t)(((c >= 'A') & (c <= 'Z')) << 5); }
static size_t refenc(char *o, const char *hrp, int ver, const uint8_t *p, size_t n) {
  size_t l = 0; uint32_t c = 1;
  for (const char *h = hrp; *h; h++) c = pm(c, *h >> 5);
  c = pm(c, 0);
  for (const char *h = hrp; *h; h++) { c = pm(c, *h & 31); o[l++] = *h; }
  o[l++] = '1'; c = pm(c, ver); o[l++] = chr5(ver);
  size_t g = (n * 8 + 4) / 5;
  for (size_t i = 0; i < g; i++) { size_t b = i * 5; uint16_t w = p[b / 8] << 8 | (b / 8 + 1 < n ? p[b / 8 + 1] : 0); uint8_t v = (w >> (11 - b % 8)) & 31; c = pm(c, v); o[l++] = chr5(v); }
  for (int i = 0; i < 6; i++) c = pm(c, 0);
  c ^= 1;
  for (int i = 0; i < 6; i++) o[l++] = chr5((c >> (5 * (5 - i))) & 31);
  o[l] = 0; return l;
}
static int validlen(int ver, size_t n) { return n >= 2 && n <= 40 && (ver != 0 || n == 20 || n == 32); }
// the encoding equals the reference, for every program
extern "C" void h_segwit_enc() {
  usym_merge(1); usym_linear(1);
  size_t n = usym_param("n", 20); const char *hrp = HRPS[usym_param("hrp", 0)];
  uint8_t *p = symbuf(n, "prog"); int ver = (int)pick("ver", 0, usym_param("maxver", 18));
  char *o = (char *)filled(73 + strlen(hrp), 0x5a), *r = (char *)exact(100);
  int ok = segwit_addr_encode(o, hrp, ver, p, n);
  if (ver > 16 || !validlen(ver, n)) { REACH("refused"); ASSERT(ok == 0, "impossible version or program length is refused"); return; }
  ASSERT(ok == 1, "every valid program encodes");
  size_t l = refenc(r, hrp, ver, p, n);
  ASSERT(strlen(o) == l && eq(o, r, l), "the address is the BIP173 encoding"); REACH("enc");
}
// a valid address with two arbitrary characters anywhere: decodes exactly when it is valid, to what it denotes
static int refdec(const char *t, const char *hrp, int *ver, uint8_t *out, size_t *outlen) {
  size_t h = strlen(hrp), n = strlen(t), k = n - h - 1; int ok = 1, up = 0, lo = 0; uint32_t c = 1;
  for (size_t i = 0; i < h; i++) { ok &= lower(t[i]) == hrp[i]; up |= (t[i] >= 'A') & (t[i] <= 'Z'); lo |= (t[i] >= 'a') & (t[i] <= 'z'); }
  for (const char *x = hrp; *x; x++) c = pm(c, *x >> 5);
  c = pm(c, 0); for (const char *x = hrp; *x; x++) c = pm(c, *x & 31);
  uint8_t *d = exact(k);
  for (size_t i = 0; i < k; i++) { uint8_t ch = t[h + 1 + i], w = val5(lower(ch)); ok &= w != 255; up |= (ch >= 'A') & (ch <= 'Z'); lo |= (ch >= 'a') & (ch <= 'z'); d[i] = w & 31; c = pm(c, w & 31); }
  ok &= c == 1; ok &= !(up & lo);
  size_t g = k - 7, pl = g * 5 / 8, extra = g * 5 - pl * 8;
  ok &= extra < 5 && pl >= 2 && pl <= 40; if (extra < 5 && g) ok &= (d[k - 7] & ((1 << extra) - 1)) == 0;
  ok &= d[0] <= 16 && (d[0] != 0 || pl == 20 || pl == 32);
  *ver = d[0]; *outlen = pl;
  for (size_t i = 0; i < pl && i < 40; i++) { size_t b = i * 8, s = b / 5; uint32_t w = d[1 + s] << 10 | (s + 1 < g ? d[2 + s] << 5 : 0) | (s + 2 < g ? d[3 + s] : 0); out[i] = w >> (7 - b % 5); }
  return ok;
}
extern "C" void h_segwit_dec() {
  usym_merge(1); if (usym_param("prog", 0)) usym_linear(1);
  size_t n = usym_param("n", 20); const char *hrp = HRPS[usym_param("hrp", 0)]; int upper = usym_param("upper", 0);
  uint8_t *p = exact(n); for (size_t i = 0; i < n; i++) p[i] = i * 37 + 11; int ver = usym_param("ver", 0);
  char *o = (char *)exact(100); size_t l; size_t h = strlen(hrp);
  if (usym_param("prog", 0)) { // one arbitrary program byte, through the real encoder
    usym_sym(p + pick("at", 0, n - 1), 1, "byte");
    ASSERT(segwit_addr_encode(o, hrp, ver, p, n) == 1, "encodes"); l = strlen(o);
  } else {
    l = refenc(o, hrp, ver, p, n); size_t i = pick("pos", h + 1 + usym_param("from", 0), usym_param("to", 0) ? h + usym_param("to", 0) : l - 1), j = h + 1 + (i - h - 1 + usym_param("dist", 1)) % (l - h - 1);
    usym_sym(o + i, 1, "char"); usym_sym(o + j, 1, "char2"); ASSUME((o[i] != 0) & (o[j] != 0) & (o[i] != '1') & (o[j] != '1'));
  }
  char *in = (char *)dup(o, l + 1); if (upper) for (size_t i = 0; i < l; i++) in[i] -= ((in[i] >= 'a') & (in[i] <= 'z')) << 5;
  uint8_t *q = filled(40, 0x5a), *rq = filled(40, 0x5a); size_t ql = 99, rl = 99; int v = 99, rv = 99;
  int r = segwit_addr_decode(&v, q, &ql, hrp, in), ok = refdec(in, hrp, &rv, rq, &rl);
  ASSERT((r != 0) == (ok != 0), "accepted exactly when it is a valid BIP173 address");
  ASSERT((r == 0) | ((v == rv) & (ql == rl) & eq(q, rq, 40)), "version and program are the ones encoded");
  if (usym_param("prog", 0)) ASSERT(r == 1 && v == ver && ql == n && eq(q, p, n), "decoding inverts encoding");
  ASSERT(segwit_addr_decode(&v, q, &ql, hrp[0] == 't' ? "bc" : "tb", in) == 0, "another network's prefix is refused"); REACH("dec");
}
// well-checksummed addresses: any version value and any last data value (padding bits)
extern "C" void h_segwit_vals() {
  usym_merge(1); usym_linear(1);
  size_t g = usym_param("g", 32); const char *hrp = HRPS[usym_param("hrp", 0)]; size_t h = strlen(hrp), l = 0; char *o = (char *)exact(h + 1 + 1 + g + 6 + 1);
  uint8_t ver = usym_param("ver", 0), last = usym_param("last", 16); if (ver > 31) { usym_sym(&ver, 1, "ver"); ver &= 31; } if (last > 31) { usym_sym(&last, 1, "last"); last &= 31; }
  uint32_t c = 1; for (const char *x = hrp; *x; x++) c = pm(c, *x >> 5);
  c = pm(c, 0); for (const char *x = hrp; *x; x++) { c = pm(c, *x & 31); o[l++] = *x; }
  o[l++] = '1';
  for (size_t i = 0; i <= g; i++) { uint8_t v = i == 0 ? ver : i == g ? last : (i * 7 + 3) & 31; c = pm(c, v); o[l++] = chr5(v); }
  for (int i = 0; i < 6; i++) c = pm(c, 0);
  c ^= 1 ^ usym_param("xor", 0); for (int i = 0; i < 6; i++) o[l++] = chr5((c >> (5 * (5 - i))) & 31);
  o[l] = 0;
  uint8_t *q = filled(40, 0x5a), *rq = filled(40, 0x5a); size_t ql = 99, rl = 99; int v = 99, rv = 99;
  int r = segwit_addr_decode(&v, q, &ql, hrp, o), ok = refdec(o, hrp, &rv, rq, &rl);
  ASSERT((r != 0) == (ok != 0), "accepted exactly when it is a valid BIP173 address");
  ASSERT((r == 0) | ((v == rv) & (ql == rl) & eq(q, rq, 40)), "version and program are the ones encoded"); REACH("vals");
}
// any text: accepted exactly when it is a valid BIP173 address, with the version and program it denotes
extern "C" void h_segwit_text() {
  usym_merge(1); usym_linear(1);
  size_t k = usym_param("k", 11); const char *hrp = HRPS[usym_param("hrp", 0)]; size_t h = strlen(hrp), n = h + 1 + k;
  char *t = (char *)exact(n + 1); memcpy(t, hrp, h); t[h] = '1'; t[n] = 0;
  int upper = usym_param("upper", 0); if (upper) for (size_t i = 0; i < h; i++) t[i] -= 32;
  usym_sym(t + h + 1, k, "text"); for (size_t i = h + 1; i < n; i++) ASSUME(t[i] != 0 && t[i] != '1');
  int v = 99; uint8_t *q = filled(40, 0x5a); size_t ql = 99;
  int r = segwit_addr_decode(&v, q, &ql, hrp, t);
  int ok = 1, up = upper, lo = !upper; uint32_t c = 1;
  for (const char *x = hrp; *x; x++) c = pm(c, *x >> 5);
  c = pm(c, 0); for (const char *x = hrp; *x; x++) c = pm(c, *x & 31);
  uint8_t *d = exact(k);
  for (size_t i = 0; i < k; i++) { uint8_t ch = t[h + 1 + i], w = val5(lower(ch)); ok &= w != 255; up |= (ch >= 'A') & (ch <= 'Z'); lo |= (ch >= 'a') & (ch <= 'z'); d[i] = w & 31; c = pm(c, w & 31); }
  ok &= c == 1; ok &= !(up & lo);
  size_t g = k >= 7 ? k - 7 : 0, pl = g * 5 / 8, extra = g * 5 - pl * 8;
  ok &= k >= 7 && extra < 5 && pl >= 2 && pl <= 40;
  if (extra < 5 && g) ok &= (d[k - 7] & ((1 << extra) - 1)) == 0;
  ok &= k >= 7 && d[0] <= 16 && (d[0] != 0 || pl == 20 || pl == 32);
  if (!ok) { REACH("text-no"); ASSERT(r == 0, "text that is not a valid address is refused"); return; }
  REACH("text-yes");
  ASSERT(r == 1, "a valid address is accepted"); ASSERT(v == d[0] && ql == pl, "version and length are the ones encoded");
  int same = 1; for (size_t i = 0; i < pl; i++) { size_t b = i * 8, s = b / 5; uint32_t w = d[1 + s] << 10 | (s + 1 < g ? d[2 + s] << 5 : 0) | (s + 2 < g ? d[3 + s] : 0); same &= q[i] == (uint8_t)(w >> (7 - b % 5)); }
  ASSERT(same, "the program is the one encoded");
}
// arbitrary short text, and long text with the separator anywhere: no access outside the buffers
extern "C" void h_bech32_safe() {
  usym_merge(1); usym_linear(1);
  size_t n = usym_param("n", 9); char *t = (char *)exact(n + 1); t[n] = 0;
  if (usym_param("long", 0)) { memset(t, 'q', n); size_t i = pick("sep", 0, n); if (i < n) t[i] = '1'; uint8_t c; usym_sym(&c, 1, "char"); ASSUME(c != 0); t[n / 2] = c; }
  else { usym_sym(t, n, "text"); for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); }
  int v = 99; uint8_t *q = filled(40, 0x5a); size_t ql = 99; int r = segwit_addr_decode(&v, q, &ql, "bc", t);
  ASSERT(r == 0 || (n <= 90 && t[0] == 'b' && t[1] == 'c' && t[2] == '1') || (t[0] == 'B' && t[1] == 'C' && t[2] == '1'), "only text with the expected prefix is accepted"); REACH("safe");
}
