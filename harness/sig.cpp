// Signatures as DER, compact bytes and text.
#include "h.h"
#include "Bitcoin.h"
static char hexd(int v) { return "0123456789abcdef"[v & 15]; }
static size_t zeros(const uint8_t *x) { size_t z = 0; while (z < 32 && x[z] == 0) z++; return z; }
static size_t rint(const uint8_t *x, uint8_t *o) { // the shortest DER integer
  size_t z = zeros(x), p = 0; o[p++] = 2; if (z == 32) { o[p++] = 1; o[p++] = 0; return p; } int hi = x[z] >= 0x80; o[p++] = 32 - z + hi; if (hi) o[p++] = 0; memcpy(o + p, x + z, 32 - z); return p + 32 - z;
}
static size_t rder(const uint8_t *rs, uint8_t *o) { size_t n = rint(rs, o + 2); n += rint(rs + 32, o + 2 + n); o[0] = 0x30; o[1] = n; return n + 2; }
// one number is arbitrary, the other has a given number of leading zero bytes and a given top bit
static uint8_t *numbers() { int w = usym_param("which", 0), z = usym_param("z", 0), hi = usym_param("hi", 0); uint8_t *q = exact(64), *o = q + 32 * (1 - w); usym_sym(q + 32 * w, 32, "x"); if (usym_param("fix", 0)) q[32 * w] = usym_param("fix", 0); memset(o, 0, 32); if (z < 32) { usym_sym(o + z, 32 - z, "y"); o[z] = hi ? o[z] | 0x80 : (o[z] & 0x7f) | 1; } return q; }
static void same(Signature &s, const uint8_t *q) { uint8_t b[65]; s.bin(b, 65); ASSERT(eq(b, q, 64), "r and s"); }
extern "C" void h_der() {
  uint8_t *q = numbers(), e[72]; size_t n = rder(q, e); Signature s(q, q + 32); ASSERT(s.length() == n, "length of the encoding");
  long d = usym_param("d", 0), m = usym_param("m", -1) >= 0 ? usym_param("m", 0) : (long)n + d; uint8_t *o = filled(m, 0x5a); size_t r = s.der(o, m);
  if (m < (long)n) { ASSERT(r == 0, "a buffer that is too small is refused"); REACH("small"); } else { ASSERT(r == n && eq(o, e, n), "strict DER of r and s"); REACH("der"); }
  same(s, q);
}
extern "C" void h_from() { // every way to read the DER encoding back
  uint8_t *q = numbers(), e[80]; size_t n = rder(q, e), x = usym_param("extra", 0); int how = usym_param("how", 0); uint8_t *b = exact(n + x); memcpy(b, e, n); if (x) usym_sym(b + n, x, "extra");
  if (how == 0) { Signature s(b); ASSERT(s.getStatus() == PARSING_DONE, "parsed"); same(s, q); ASSERT(s.index == 0, "index"); }
  if (how == 1) { Signature s(b, n + x); ASSERT(s.getStatus() == PARSING_DONE, "parsed"); same(s, q); ASSERT(s.index == 0, "index"); }
  if (how == 2) { uint8_t z[65]; memset(z, 7, 65); Signature s; s.fromBin(z, 65); ASSERT(s.fromDer(b, n + x) == n, "bytes consumed"); ASSERT(s.getStatus() == PARSING_DONE, "parsed"); same(s, q); }
  if (how == 3) { usym_merge(1); size_t t = 2 * n; char *h = (char *)exact(t + 1); for (size_t i = 0; i < n; i++) { h[2 * i] = hexd(b[i] >> 4); h[2 * i + 1] = hexd(b[i]); } h[t] = 0; Signature s(h); ASSERT(s.getStatus() == PARSING_DONE, "parsed"); same(s, q); Signature u; ASSERT(u.parse(std::string(h)) == n && u.getStatus() == PARSING_DONE, "parsed from a string"); same(u, q); ASSERT(u == s && !(u != s), "equal signatures"); }
  if (how == 4) { usym_merge(1); Signature s(q, q + 32); std::string t = s.toString(); ASSERT(t.size() == 2 * n, "length of the text"); int ok = 1; for (size_t i = 0; i < n; i++) ok &= (t[2 * i] == hexd(e[i] >> 4)) & (t[2 * i + 1] == hexd(e[i])); ASSERT(ok, "text form"); uint8_t *o = exact(n); ASSERT(s.serialize(o, n) == n && eq(o, e, n), "serialized"); }
  REACH("read");
}
extern "C" void h_from_short() { // a DER text that is cut is not taken for a signature
  usym_merge(1);   uint8_t *q = numbers(), e[80]; size_t n = rder(q, e), k = pick("cut", 0, n - 1); int how = usym_param("how", 0); uint8_t *b = dup(e, k);
  if (how == 0) { Signature s(b, k); ASSERT(s.getStatus() != PARSING_DONE || k == 0, "a cut encoding is not complete"); }
  else { char *h = (char *)exact(2 * k + 1); for (size_t i = 0; i < k; i++) { h[2 * i] = hexd(b[i] >> 4); h[2 * i + 1] = hexd(b[i]); } h[2 * k] = 0; Signature s(h); ASSERT(s.getStatus() != PARSING_DONE || k == 0, "a cut text is not complete"); }
  REACH("cut");
}
extern "C" void h_bin() { // compact form for every length
  size_t n = usym_param("n", 65), m = usym_param("m", 65); uint8_t *q = symbuf(65, "sig"), *old = symbuf(65, "old"); Signature s; s.fromBin(old, 65); uint8_t *in = dup(q, n < 65 ? n : 65); if (n > 65) { in = exact(n); memset(in, 3, n); memcpy(in, q, 65); }
  s.fromBin(in, n); uint8_t *o = filled(m, 0x5a); s.bin(o, m); int ok = 1; for (size_t i = 0; i < m && i < 65; i++) ok &= o[i] == (i < n ? q[i] : old[i]); ASSERT(ok, "r, s and index, as far as the buffers reach"); if (m > 65) ASSERT(allv(o + 65, m - 65, 0x5a), "nothing after the index is touched");
  uint8_t z[65]; memset(z, 0, 65); if (n >= 64) { ASSERT(s.isValid() == !eq(q, z, 64), "valid unless r and s are zero"); ASSERT((bool)s == s.isValid(), "truth"); ASSERT(n < 65 || s.index == q[64], "index"); }
  REACH("bin");
}
extern "C" void h_eq() { uint8_t *a = symbuf(64, "a"), *b = symbuf(64, "b"); int k = usym_param("schnorr", 0); if (k) { SchnorrSignature x(a), y(b, b + 32); ASSERT((x == y) == eq(a, b, 64), "equality"); ASSERT((x != y) != eq(a, b, 64), "inequality"); ASSERT(x.isValid() == !allv(a, 64, 0), "valid unless zero"); } else { Signature x(a, a + 32), y(b, b + 32); ASSERT((x == y) == eq(a, b, 64), "equality"); ASSERT((x != y) != eq(a, b, 64), "inequality"); ASSERT(x.isValid() == !allv(a, 64, 0), "valid unless zero"); } REACH("eq"); }
extern "C" void h_schnorr() {
  usym_merge(1); uint8_t *q = symbuf(64, "sig"), o[64]; size_t k = usym_param("k", 64); char *h = (char *)exact(2 * k + 1); for (size_t i = 0; i < k; i++) { h[2 * i] = hexd(q[i] >> 4); h[2 * i + 1] = hexd(q[i]); } h[2 * k] = 0;
  SchnorrSignature s(h); ASSERT((s.getStatus() == PARSING_DONE) == (k == 64 || k == 0) || k == 0, "complete with 64 bytes");
  if (k == 64) { ASSERT(s.length() == 64 && s.serialize(o, 64) == 64 && eq(o, q, 64), "bytes of the text"); std::string t = s.toString(); ASSERT(t.size() == 128 && eq(t.data(), h, 128), "text form"); SchnorrSignature a(q), b(q, q + 32), c; c.parse(q, 64); ASSERT(a == s && b == s && c == s, "the forms agree"); }
  REACH("schnorr");
}
