// Scalars modulo the group order.
#include "h.h"
#include "Bitcoin.h"
extern "C" {
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
}
typedef BI(320) u320;
static u320 N320() { static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; u320 n = 0; for (int i = 0; i < 8; i++) n = n << 32 | N[i]; return n; }
static u320 be(const uint8_t *p) { u320 v = 0; for (int i = 0; i < 32; i++) v = v << 8 | p[i]; return v; }
static uint8_t *scal(const char *name) { uint8_t *k = symbuf(32, name); ASSUME(be(k) < N320()); return k; }
static u320 val(const ECScalar &s) { uint8_t g[32]; s.getSecret(g); return be(g); }
static uint8_t *part(const char *name, int at, int bits, int pat) { // a fixed pattern with a symbolic field of bits at position at
  static const uint64_t W[4][4] = {{0, 0, 0, 0}, {~0ull, ~0ull, ~0ull, ~0ull - 1}, {0x0123456789abcdefull, 0xfedcba9876543210ull, 0xdeadbeefcafebabeull, 0x1badb002feedf00dull}, {0xbfd25e8cd0364140ull, 0xbaaedce6af48a03bull, 0xfffffffffffffffeull, 0xffffffffffffffffull}};
  u320 v = 0; for (int i = 3; i >= 0; i--) v = v << 64 | W[pat][i]; if (bits) { u320 m = (((u320)1 << bits) - 1) << at; v = (v & ~m) | ((u320)usym_int(name, 0, (1ull << bits) - 1) << at); }
  uint8_t *k = exact(32); for (int i = 31; i >= 0; i--) { k[i] = (uint8_t)v; v >>= 8; } ASSUME(be(k) < N320()); return k;
}
// The field of symbolic bits enters linearly: a = a0 + t * 2^at, so a*b = a0*b + t * (2^at * b) with constants reduced beforehand.
extern "C" void h_scalar_mul() {
  int op = usym_param("op", 0), at = usym_param("at", 0), bits = usym_param("bits", 8), pa = usym_param("pa", 2), swap = usym_param("swap", 0); typedef BI(640) u640; u640 n = N320();
  static const uint64_t W[4][4] = {{0, 0, 0, 0}, {~0ull, ~0ull, ~0ull, ~0ull - 1}, {0x0123456789abcdefull, 0xfedcba9876543210ull, 0xdeadbeefcafebabeull, 0x1badb002feedf00dull}, {0xbfd25e8cd0364140ull, 0xbaaedce6af48a03bull, 0xfffffffffffffffeull, 0xffffffffffffffffull}};
  u640 a0 = 0, b = 0; for (int i = 3; i >= 0; i--) { a0 = a0 << 64 | W[pa][i]; b = b << 64 | W[usym_param("pb", 3)][i]; } u640 m = (((u640)1 << bits) - 1) << at; a0 &= ~m; b %= n;
  uint64_t t = usym_int("t", 0, (1ull << bits) - 1); u320 av = (u320)a0 | (u320)t << at; uint8_t ka[32], kb[32]; { u320 v = av; for (int i = 31; i >= 0; i--) { ka[i] = (uint8_t)v; v >>= 8; } v = (u320)b; for (int i = 31; i >= 0; i--) { kb[i] = (uint8_t)v; v >>= 8; } }
  ASSUME(be(ka) < N320()); ECScalar x, y; x.setSecret(ka); y.setSecret(kb); u320 c0 = (u320)(a0 * b % n), c1 = (u320)(((u640)1 << at) % n * b % n), z, N = N320();
  if (op == 0) { z = val(swap ? y * x : x * y); u320 r = c0 + c1 * (u320)t, q = r >> 256; ASSERT(z < N && (r - z == q * N || r - z == (q + 1) * N), "product modulo the group order"); }
  REACH("mul");
}
extern "C" void h_scalar_sub() { // difference as defined by sum and negation, and directly on a narrow field
  int m = usym_param("m", 0); uint8_t *a = m ? part("a", usym_param("at", 0), 32, usym_param("pa", 2)) : scal("a"), *b = m ? part("b", usym_param("bt", 0), 32, usym_param("pb", 2)) : scal("b"); ECScalar x, y; x.setSecret(a); y.setSecret(b); u320 n = N320();
  ECScalar z = x - y; if (!m) ASSERT(val(z) == val(x + (-y)), "difference is the sum with the negative"); else { u320 A = be(a), B = be(b); ASSERT(val(z) == (A >= B ? A - B : A + n - B), "difference modulo the group order"); }
  REACH("sub");
}
extern "C" void h_scalar_add() {
  int op = usym_param("op", 0); uint8_t *a = scal("a"); ECScalar x; x.setSecret(a); u320 n = N320(), A = be(a), r; 
  if (op == 0 || op == 1 || op == 6) { uint8_t *b = scal("b"); u320 B = be(b); ECScalar y; y.setSecret(b); ECScalar z = op == 0 ? x + y : x - y; if (op == 6) { z = x; z += y; } if (op == 1) B = B == 0 ? 0 : n - B; r = A + B >= n ? A + B - n : A + B; if (op == 1) B = be(b); ASSERT(val(z) == r, op == 1 ? "difference modulo the group order" : "sum modulo the group order"); ASSERT(val(x) == A && val(y) == B || op == 6, "operands unchanged"); }
  if (op == 2) { ECScalar z = -x; ASSERT(val(z) == (A == 0 ? 0 : n - A), "negative modulo the group order"); }
  if (op == 3 || op == 4) { uint32_t i = (uint32_t)usym_int("i", 0, 0xffffffff); ECScalar z = op == 3 ? x + i : x - i; r = op == 3 ? (A + i >= n ? A + i - n : A + i) : 0; if (op == 4) { u320 m = i == 0 ? 0 : n - i; r = A + m >= n ? A + m - n : A + m; } ASSERT(val(z) == r, op == 3 ? "sum with an integer" : "difference with an integer"); }
  if (op >= 7) { uint32_t i = (uint32_t)usym_int("i", 0, 0xffffffff); const ECScalar c = x; ECScalar z; if (op == 7) z = c + i; if (op == 8) z = c - i; if (op == 9) { z = x; z += i; } if (op == 10) { z = x; z -= i; } u320 m = op == 7 || op == 9 || i == 0 ? (u320)i : n - i; r = A + m >= n ? A + m - n : A + m; ASSERT(val(z) == r, "integer added to or subtracted from a scalar"); }
  if (op == 5) { uint8_t *b = scal("b"); ECScalar y; y.setSecret(b); ASSERT((x < y) == (be(a) < be(b)), "order of scalars"); ASSERT((x == y) == (be(a) == be(b)) && (x != y) == (be(a) != be(b)), "equality of scalars"); }
  REACH("scalar");
}
