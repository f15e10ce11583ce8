// Uninterpreted-function abstractions of the cryptographic primitives. Used only where a job lists them;
// on fully concrete inputs the real primitive is executed instead.
#include "usym.h"
#include <string.h>
#include <string>
#include "BitcoinCurve.h"
#ifdef USYM
template class std::basic_string<char>; // bodies for the executor
#endif
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/ripemd160.h"
void ripemd160_process(RIPEMD160_CTX *ctx, const uint8_t data[64]) __attribute__((weak));

void stub_sha256_Transform(const uint32_t *si, const uint32_t *d, uint32_t *so) {
  uint8_t in[96], out[32]; memcpy(in, si, 32); memcpy(in + 32, d, 64);
  if (usym_uf_try("sha256", in, 96, out, 32)) memcpy(so, out, 32); else { sha256_Transform(si, d, so); usym_uf_fact("sha256", in, 96, so, 32); }
}
// the same for concrete arguments too: the hash is an arbitrary function
void stub_sha256u_Transform(const uint32_t *si, const uint32_t *d, uint32_t *so) { uint8_t in[96], out[32]; memcpy(in, si, 32); memcpy(in + 32, d, 64); usym_uf("sha256", in, 96, out, 32); memcpy(so, out, 32); }
void stub_sha512_Transform(const uint64_t *si, const uint64_t *d, uint64_t *so) {
  uint8_t in[192], out[64]; memcpy(in, si, 64); memcpy(in + 64, d, 128);
  if (usym_uf_try("sha512", in, 192, out, 64)) memcpy(so, out, 64); else { sha512_Transform(si, d, so); usym_uf_fact("sha512", in, 192, so, 64); }
}
void stub_ripemd160_process(RIPEMD160_CTX *ctx, const uint8_t data[64]) {
  uint8_t in[84], out[20]; memcpy(in, ctx->state, 20); memcpy(in + 20, data, 64);
  if (usym_uf_try("rmd160", in, 84, out, 20)) memcpy(ctx->state, out, 20); else { ripemd160_process(ctx, data); usym_uf_fact("rmd160", in, 84, ctx->state, 20); }
}
// ECDSA signing: a function of key and digest. The first byte of r and of s is fixed to 0x40..0x7f so that
// the DER length is constant (DER of every length is decided by its own check).
#include "utility/trezor/ecdsa.h"
int stub_ecdsa_sign_digest(const ecdsa_curve *curve, const uint8_t *priv, const uint8_t *digest, uint8_t *sig, uint8_t *pby, int (*canon)(uint8_t, uint8_t[64])) {
  uint8_t in[64], out[64]; memcpy(in, priv, 32); memcpy(in + 32, digest, 32);
  usym_uf("ecdsa_sign", in, 64, out, 64); out[0] = 0x40 | (out[0] & 0x3f); out[32] = 0x40 | (out[32] & 0x3f); memcpy(sig, out, 64); if (pby) *pby = 0; return 0;
}
// The curve: membership and decompression as uninterpreted functions of x, group operations as uninterpreted
// functions whose results lie on the curve (never infinity, unless the scalar is zero).
#include "utility/trezor/secp256k1.h"
static void pt_out(const curve_point *p, uint8_t *o) { bn_write_be(&p->x, o); bn_write_be(&p->y, o + 32); }
static int lt_p(const uint8_t *a) { // below the field prime
  unsigned _BitInt(256) v = 0, m = 0; static const uint32_t M[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xfffffc2f};
  for (int i = 0; i < 32; i++) v = v << 8 | a[i]; for (int i = 0; i < 8; i++) m = m << 32 | M[i]; return v < m;
}
static void root_of(const uint8_t *x, int odd, uint8_t *y) { // y of the given parity; meaningful when x is on the curve
  uint8_t in[33]; in[0] = odd & 1; memcpy(in + 1, x, 32); usym_uf("lift", in, 33, y, 32); y[31] = (y[31] & 0xfe) | (odd & 1); uint8_t z = 0; for (int i = 0; i < 32; i++) z |= y[i]; usym_assume(lt_p(y) & (z != 0)); // no point has y = 0
}
static int on_curve(const uint8_t *x, const uint8_t *y) { uint8_t f, r[32], d = 0; usym_uf("onx", x, 32, &f, 1); root_of(x, y[31] & 1, r); for (int i = 0; i < 32; i++) d |= r[i] ^ y[i]; return (f & 1) & (d == 0); }
static void pt_new(const uint8_t *o, curve_point *p) { usym_assume(lt_p(o) & lt_p(o + 32)); usym_assume(on_curve(o, o + 32)); bn_read_be(o, &p->x); bn_read_be(o + 32, &p->y); }
static void fact_on(const uint8_t *x, const uint8_t *y, int ok) { uint8_t in[33], f = ok; usym_uf_fact("onx", x, 32, &f, 1); if (ok) { in[0] = y[31] & 1; memcpy(in + 1, x, 32); usym_uf_fact("lift", in, 33, y, 32); } }
void stub_scalar_multiply(const ecdsa_curve *c, const bignum256 *k, curve_point *r) {
  usym_assert(bn_is_less(k, &c->order), "assertion in scalar_multiply: the scalar is below the group order");
  uint8_t in[32], o[64]; bn_write_be(k, in); uint8_t z = 0; for (int i = 0; i < 32; i++) z |= in[i];
  if (!z) { point_set_infinity(r); return; }
  if (usym_uf_try("mulG", in, 32, o, 64)) { pt_new(o, r); return; }
  scalar_multiply(c, k, r); pt_out(r, o); usym_uf_fact("mulG", in, 32, o, 64); fact_on(o, o + 32, 1);
}
void stub_point_multiply(const ecdsa_curve *c, const bignum256 *k, const curve_point *p, curve_point *r) {
  usym_assert(bn_is_less(k, &c->order), "assertion in point_multiply: the scalar is below the group order");
  uint8_t in[96], o[64]; bn_write_be(k, in); pt_out(p, in + 32); uint8_t z = 0, g[64], d = 0; pt_out(&c->G, g);
  if (!usym_is_symbolic(in + 32, 64)) { for (int i = 0; i < 64; i++) d |= g[i] ^ in[32 + i]; if (!d) { stub_scalar_multiply(c, k, r); return; } } // times the generator
  for (int i = 0; i < 32; i++) z |= in[i];
  if (!z) { point_set_infinity(r); return; }
  if (usym_uf_try("mul", in, 96, o, 64)) { pt_new(o, r); return; }
  point_multiply(c, k, p, r); pt_out(r, o); usym_uf_fact("mul", in, 96, o, 64); fact_on(o, o + 32, 1);
}
void stub_point_add(const ecdsa_curve *c, const curve_point *p, curve_point *q) { // commutative
  uint8_t in[128], a[64], b[64], o[64]; pt_out(p, a); pt_out(q, b); unsigned _BitInt(512) x = 0, y = 0; for (int i = 0; i < 64; i++) { x = x << 8 | a[i]; y = y << 8 | b[i]; }
  uint8_t m = x < y ? 0 : 255; for (int i = 0; i < 64; i++) { in[i] = (a[i] & ~m) | (b[i] & m); in[64 + i] = (b[i] & ~m) | (a[i] & m); }
  if (usym_uf_try("add", in, 128, o, 64)) { pt_new(o, q); return; }
  point_add(c, p, q); pt_out(q, o); usym_uf_fact("add", in, 128, o, 64);
}
void stub_uncompress_coords(const ecdsa_curve *c, uint8_t odd, const bignum256 *x, bignum256 *y) {
  uint8_t b[33], o[32]; b[0] = odd & 1; bn_write_be(x, b + 1);
  if (!usym_uf_try("lift", b, 33, o, 32)) { uncompress_coords(c, odd, x, y); return; }
  root_of(b + 1, odd, o); bn_read_be(o, y);
}
int stub_ecdsa_validate_pubkey(const ecdsa_curve *c, const curve_point *p) {
  uint8_t b[64], f; if (point_is_infinity(p)) return 0; if (!bn_is_less(&p->x, &c->prime) || !bn_is_less(&p->y, &c->prime)) return 0;
  pt_out(p, b); if (!usym_is_symbolic(b, 64) && !usym_uf_try("onx", b, 32, &f, 1)) { int r = ecdsa_validate_pubkey(c, p); if (r) fact_on(b, b + 32, 1); return r; }
  return on_curve(b, b + 32);
}
// Addition of scalars modulo the group order: the exact result (the real one is decided by the scalar property).
ECScalar stub_scalar_add(const ECScalar *a, const ECScalar &b) {
  uint8_t x[32], y[32]; a->getSecret(x); b.getSecret(y); unsigned _BitInt(264) u = 0, v = 0, n = 0; static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141};
  for (int i = 0; i < 32; i++) { u = u << 8 | x[i]; v = v << 8 | y[i]; } for (int i = 0; i < 8; i++) n = n << 32 | N[i];
  u += v; if (u >= n) u -= n; for (int i = 31; i >= 0; i--) { x[i] = (uint8_t)u; u >>= 8; } ECScalar r; r.setSecret(x); return r;
}
// Final reduction: the same result as the masked subtraction, as a branch (decided by the scalar property).
void stub_bn_mod(bignum256 *x, const bignum256 *m) { if (!bn_is_less(x, m)) bn_mod(x, m); }
// Address text: an injective text form instead of base58check / bech32 (those are decided by their own
// checks), so that every payload can be symbolic. Characters 0x80..0xff never occur in real addresses.
static size_t pack7(const uint8_t *a, size_t n, char *o) {
  size_t l = (n * 8 + 6) / 7;
  for (size_t i = 0; i < l; i++) { size_t b = i * 7; uint16_t w = a[b / 8] << 8 | (b / 8 + 1 < n ? a[b / 8 + 1] : 0); o[i] = (char)(0x80 | ((w >> (9 - b % 8)) & 127)); }
  return l;
}
static int unpack7(const char *t, size_t l, uint8_t *o, size_t *n) {
  *n = l * 7 / 8; if ((*n * 8 + 6) / 7 != l) return 0; int ok = 1;
  for (size_t i = 0; i < l; i++) ok &= ((uint8_t)t[i] >> 7) & 1;
  for (size_t i = 0; i < *n; i++) { size_t b = i * 8, s = b / 7; uint32_t w = (t[s] & 127) << 14 | (t[s + 1] & 127) << 7 | (s + 2 < l ? t[s + 2] & 127 : 0); o[i] = (uint8_t)(w >> (13 - b % 7)); }
  size_t extra = l * 7 - *n * 8; if (l) ok &= (t[l - 1] & ((1 << extra) - 1)) == 0;
  return ok;
}
size_t stub_toBase58Check(const uint8_t *a, size_t n, char *o, size_t cap) {
  if (!a || !o || cap < (n + 4) * 183 / 134 + 1) return 0;
  memset(o, 0, cap); return pack7(a, n, o);
}
size_t stub_fromBase58Check(const char *t, size_t l, uint8_t *o, size_t cap) {
  uint8_t buf[128]; size_t n; if (!t || !o || l > 140) return 0;
  if (l * 7 / 8 > cap) return 0;
  if (!unpack7(t, l, buf, &n)) return 0;
  memcpy(o, buf, n); return n;
}
int stub_segwit_addr_encode(char *o, const char *hrp, int ver, const uint8_t *p, size_t n) {
  if (ver > 16 || ver < 0 || n < 2 || n > 40 || (ver == 0 && n != 20 && n != 32)) return 0;
  size_t h = strlen(hrp); memcpy(o, hrp, h); o[h] = '1'; o[h + 1] = (char)('a' + ver); size_t l = pack7(p, n, o + h + 2); o[h + 2 + l] = 0; return 1;
}
int stub_segwit_addr_decode(int *ver, uint8_t *p, size_t *n, const char *hrp, const char *t) {
  size_t h = strlen(hrp), l = strlen(t); if (l < h + 2 || l > 90 || strncmp(t, hrp, h) || t[h] != '1') return 0;
  int v = t[h + 1] - 'a'; uint8_t buf[128]; size_t k; if (v < 0 || v > 16) return 0;
  if ((l - h - 2) * 7 / 8 < 2 || (l - h - 2) * 7 / 8 > 40 || !unpack7(t + h + 2, l - h - 2, buf, &k)) return 0;
  if (v == 0 && k != 20 && k != 32) return 0;
  memcpy(p, buf, k); *n = k; *ver = v; return 1;
}
// Mnemonic text: an injective hexadecimal text instead of the words (those are decided by their own jobs).
const char *stub_mnemonic_from_data(const uint8_t *d, int n) {
  static char t[80]; if (n % 4 || n < 16 || n > 32) return 0;
  for (int i = 0; i < n; i++) { t[2 * i] = (char)('a' + (d[i] >> 4)); t[2 * i + 1] = (char)('a' + (d[i] & 15)); } t[2 * n] = 0; return t;
}
// Multiplication and inversion modulo the group order: an abstract commutative group. Every value is known as a
// product of powers of atoms (recognised by their terms); a product of several atoms is an unknown
// value of its own, nonzero and below the order, and zero exactly when an atom is zero.
typedef unsigned _BitInt(272) W;
static W N_() { static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; W n = 0; for (int i = 0; i < 8; i++) n = n << 32 | N[i]; return n; }
static __attribute__((noinline)) void sub_n(W *v) { *v -= N_(); } // a call, so that the compiler keeps the branch
static void canon(const bignum256 *x, uint8_t *o) { W v = 0, n = N_(); for (int i = 8; i >= 0; i--) v = v << 30 | x->val[i]; for (int i = 0; i < 3; i++) if (v >= n) sub_n(&v); usym_assert(v < n, "assertion: operand below four times the group order"); for (int i = 31; i >= 0; i--) { o[i] = (uint8_t)v; v >>= 8; } }
static struct { uint8_t v[32]; int k; signed char e[16]; } prods[64]; static uint8_t atoms[16][32]; static int natoms, nprods;
static int find_prod(const uint8_t *v) {
  for (int i = 0; i < nprods; i++) if (usym_same(prods[i].v, v, 32)) return i;
  for (int i = 0; i < nprods; i++) if (usym_same_here(prods[i].v, v, 32)) return i;
  if (natoms >= 16 || nprods >= 63) usym_trunc("more than 16 factors"); memcpy(atoms[natoms], v, 32); memcpy(prods[nprods].v, v, 32); memset(prods[nprods].e, 0, 16); prods[nprods].e[natoms++] = 1; return nprods++;
}
static void fresh_prod(const char *nm, uint8_t *o) { usym_sym(o, 32, nm); }
static __attribute__((noinline)) void zero32(uint8_t *o) { memset(o, 0, 32); }
static void make_prod(const signed char *e, uint8_t *o) {
  for (int i = 0; i < nprods; i++) if (!memcmp(prods[i].e, e, 16)) { memcpy(o, prods[i].v, 32); return; }
  uint8_t in[16 * 33]; int n = 0, k = 0; uint8_t nz = 1; for (int i = 0; i < 16; i++) if (e[i]) { in[n++] = (uint8_t)e[i]; memcpy(in + n, atoms[i], 32); n += 32; k++; uint8_t z = 0; for (int j = 0; j < 32; j++) z |= atoms[i][j]; nz &= z != 0; }
  if (!k) { memset(o, 0, 32); o[31] = 1; }
  else { char nm[8] = "prod00"; nm[4] = (char)('0' + nprods / 10); nm[5] = (char)('0' + nprods % 10); fresh_prod(nm, o); W v = 0; for (int i = 0; i < 32; i++) v = v << 8 | o[i]; usym_assume((v != 0) & (v < N_())); if (!nz) zero32(o); }
  memcpy(prods[nprods].v, o, 32); memcpy(prods[nprods++].e, e, 16);
}
static int is_order(const bignum256 *m) { return !memcmp(m, &secp256k1.order, sizeof(*m)); }
void stub_bn_multiply(const bignum256 *k, bignum256 *x, const bignum256 *m) {
  if (!is_order(m)) { bn_multiply(k, x, m); return; }
  uint8_t a[32], b[32]; canon(k, a); canon(x, b); int i = find_prod(a), j = find_prod(b); signed char e[16]; for (int t = 0; t < 16; t++) e[t] = (signed char)(prods[i].e[t] + prods[j].e[t]); make_prod(e, b); bn_read_be(b, x);
}
void stub_bn_inverse(bignum256 *x, const bignum256 *m) {
  if (!is_order(m)) { bn_inverse(x, m); return; }
  uint8_t a[32], z = 0; canon(x, a); for (int i = 0; i < 32; i++) z |= a[i]; usym_assert(z != 0, "assertion: zero is not inverted (that never returns)"); int i = find_prod(a); signed char e[16]; for (int t = 0; t < 16; t++) e[t] = (signed char)-prods[i].e[t]; make_prod(e, a); bn_read_be(a, x);
}
uint32_t stub_random32(void) { static uint32_t x = 0x2545f491; x = x * 1664525u + 1013904223u; return x ^ x >> 16; }
// Opaque functions: a call with new arguments gives fresh unknown bytes, a call whose arguments are provably those
// of an earlier one gives the same bytes.
static struct { const char *fn; int il, ol; uint8_t in[176], out[64]; } memo[96]; static int nmemo;
static int opaque(const char *fn, const uint8_t *in, int il, uint8_t *out, int ol) { // 1 if new
  for (int i = 0; i < nmemo; i++) if (memo[i].fn == fn && memo[i].il == il && usym_same(memo[i].in, in, il)) { memcpy(out, memo[i].out, ol); return 0; }
  if (nmemo >= 96 || il > 176 || ol > 64) usym_trunc("more than 96 opaque values"); char nm[24]; int l = 0; while (fn[l] && l < 12) { nm[l] = fn[l]; l++; } nm[l++] = '#'; nm[l++] = (char)('0' + nmemo / 10); nm[l++] = (char)('0' + nmemo % 10); nm[l] = 0;
  usym_sym(out, ol, nm); memo[nmemo].fn = fn; memo[nmemo].il = il; memo[nmemo].ol = ol; memcpy(memo[nmemo].in, in, il); memcpy(memo[nmemo].out, out, ol); nmemo++; return 1;
}
static const char F_SHA[] = "sha256", F_MULG[] = "mulG", F_MUL[] = "mul", F_ADD[] = "add", F_LIFT[] = "lift", F_ONX[] = "onx", F_ONP[] = "onp";
void opq_sha256_Transform(const uint32_t *si, const uint32_t *d, uint32_t *so) {
  uint8_t in[96], out[32]; memcpy(in, si, 32); memcpy(in + 32, d, 64); if (!usym_is_symbolic(in, 96)) { sha256_Transform(si, d, so); return; }
  opaque(F_SHA, in, 96, out, 32); memcpy(so, out, 32);
}
static uint8_t known[24][64]; static int nknown; // points that are on the curve
static void neg_y(const uint8_t *y, uint8_t *o) { bignum256 a, b; bn_read_be(y, &a); bn_subtract(&secp256k1.prime, &a, &b); bn_write_be(&b, o); }
static void fresh_point(const uint8_t *o, curve_point *r) { uint8_t z = 0; for (int i = 32; i < 64; i++) z |= o[i]; usym_assume(lt_p(o) & lt_p(o + 32) & (z != 0)); bn_read_be(o, &r->x); bn_read_be(o + 32, &r->y); if (nknown < 24) memcpy(known[nknown++], o, 64); }
void opq_scalar_multiply(const ecdsa_curve *c, const bignum256 *k, curve_point *r) {
  usym_assert(bn_is_less(k, &c->order), "assertion in scalar_multiply: the scalar is below the group order");
  uint8_t in[32], m[32], o[64]; bn_write_be(k, in); if (!usym_is_symbolic(in, 32)) { scalar_multiply(c, k, r); return; }
  uint8_t z = 0; for (int i = 0; i < 32; i++) z |= in[i]; if (!z) { point_set_infinity(r); return; }
  bignum256 h; bn_subtract(&c->order, k, &h); bn_write_be(&h, m);
  for (int i = 0; i < nmemo; i++) if (memo[i].fn == F_MULG && usym_same(memo[i].in, m, 32)) { bn_read_be(memo[i].out, &r->x); neg_y(memo[i].out + 32, o); bn_read_be(o, &r->y); return; }
  if (opaque(F_MULG, in, 32, o, 64)) { fresh_point(o, r); return; } bn_read_be(o, &r->x); bn_read_be(o + 32, &r->y);
}
void opq_point_multiply(const ecdsa_curve *c, const bignum256 *k, const curve_point *p, curve_point *r) {
  usym_assert(bn_is_less(k, &c->order), "assertion in point_multiply: the scalar is below the group order"); usym_assert(!point_is_infinity(p), "assertion in point_multiply: not infinity");
  uint8_t in[96], o[64], g[64], z = 0; bn_write_be(k, in); pt_out(p, in + 32); pt_out(&c->G, g); if (usym_same(g, in + 32, 64)) { opq_scalar_multiply(c, k, r); return; }
  for (int i = 0; i < 32; i++) z |= in[i]; if (!z) { point_set_infinity(r); return; }
  if (opaque(F_MUL, in, 96, o, 64)) { fresh_point(o, r); return; } bn_read_be(o, &r->x); bn_read_be(o + 32, &r->y);
}
void opq_point_add(const ecdsa_curve *c, const curve_point *p, curve_point *q) { // commutative
  uint8_t in[128], o[64]; pt_out(q, in); pt_out(p, in + 64); for (int i = 0; i < nmemo; i++) if (memo[i].fn == F_ADD && usym_same(memo[i].in, in, 128)) { bn_read_be(memo[i].out, &q->x); bn_read_be(memo[i].out + 32, &q->y); return; }
  pt_out(p, in); pt_out(q, in + 64); if (opaque(F_ADD, in, 128, o, 64)) { fresh_point(o, q); return; } bn_read_be(o, &q->x); bn_read_be(o + 32, &q->y);
}
void opq_uncompress_coords(const ecdsa_curve *c, uint8_t odd, const bignum256 *x, bignum256 *y) {
  uint8_t b[32], e[32]; bn_write_be(x, b); if (!usym_is_symbolic(b, 32)) { uncompress_coords(c, odd, x, y); return; }
  for (int i = 0; i < nknown; i++) if (usym_same(known[i], b, 32)) { memcpy(e, known[i] + 32, 32); goto found; }
  if (opaque(F_LIFT, b, 32, e, 32)) { uint8_t z = 0; for (int i = 0; i < 32; i++) z |= e[i]; usym_assume(!(e[31] & 1) & (z != 0) & lt_p(e)); }
found:
  if ((e[31] & 1) != (odd & 1)) neg_y(e, e); bn_read_be(e, y);
}
int opq_ecdsa_validate_pubkey(const ecdsa_curve *c, const curve_point *p) {
  uint8_t b[64], n[32], f = 0; if (point_is_infinity(p)) return 0; if (!bn_is_less(&p->x, &c->prime) || !bn_is_less(&p->y, &c->prime)) return 0;
  pt_out(p, b); if (!usym_is_symbolic(b, 64)) return ecdsa_validate_pubkey(c, p); neg_y(b + 32, n);
  for (int i = 0; i < nknown; i++) if (usym_same(known[i], b, 32) && (usym_same(known[i] + 32, b + 32, 32) || usym_same(known[i] + 32, n, 32))) return 1;
  for (int i = 0; i < nmemo; i++) if (memo[i].fn == F_LIFT && usym_same(memo[i].in, b, 32) && (usym_same(memo[i].out, b + 32, 32) || usym_same(memo[i].out, n, 32))) { opaque(F_ONX, b, 32, &f, 1); return f & 1; }
  opaque(F_ONP, b, 64, &f, 1); return f & 1;
}
void opq_known(const uint8_t *pt) { if (nknown < 24) memcpy(known[nknown++], pt, 64); } // harness: this point is on the curve
// A small field: products, partial reduction and inverses modulo a prime just below a power of two, with the same
// partly reduced representations as the real ones (a positive multiple of the prime ends as the prime, never as 0).
static uint64_t small_get(const bignum256 *x) { uint32_t hi = 0; for (int i = 2; i < 9; i++) hi |= x->val[i]; usym_assert(hi == 0, "assertion: intermediate value fits"); return (uint64_t)x->val[1] << 30 | x->val[0]; }
static void small_put(uint64_t v, bignum256 *x) { for (int i = 1; i < 9; i++) x->val[i] = 0; x->val[0] = (uint32_t)v; }
// folding modulo q = 2^s - 1: congruent, at most 2q, and zero only for zero
static uint32_t toy_fold(uint32_t v, const bignum256 *m) { uint32_t q = m->val[0]; unsigned s = q == 7 ? 3 : q == 31 ? 5 : 7; for (int i = 0; i < 3; i++) v = (v >> s) + (v & q); return v & (2 * q + 1); }
void toy_bn_fast_mod(bignum256 *x, const bignum256 *m) { if (m->val[8]) { bn_fast_mod(x, m); return; } uint64_t v = small_get(x); usym_assert(v < 1024 * m->val[0], "assertion: intermediate value fits"); small_put(toy_fold((uint32_t)v & 0x1ffff, m), x); }
static uint32_t toy_mul(uint32_t a, uint32_t b, const bignum256 *m) { a = toy_fold(a, m); b = toy_fold(b, m); return toy_fold(a * b, m); }
// the formal power g^e is written e + 1
void expo_bn_multiply(const bignum256 *k, bignum256 *x, const bignum256 *) { int64_t t = -1; for (int i = 0; i < 9; i++) { t += (int64_t)k->val[i] + x->val[i]; x->val[i] = (uint32_t)t & 0x3fffffff; t >>= 30; } }
void toy_bn_multiply(const bignum256 *k, bignum256 *x, const bignum256 *m) {
  if (m->val[8]) { bn_multiply(k, x, m); return; } // constructors of constants
  uint64_t q = m->val[0], a = small_get(k), b = small_get(x); usym_assert((a < 180 * q) & (b < 180 * q), "assertion: operands of a product below 180 times the prime"); small_put(toy_mul((uint32_t)a & 0x7fff, (uint32_t)b & 0x7fff, m), x);
}
static int toy_n;
void toy_bn_inverse(bignum256 *x, const bignum256 *m) {
  if (m->val[8]) { bn_inverse(x, m); return; }
  uint32_t q = m->val[0]; uint64_t w = small_get(x); usym_assert(w < 180 * q, "assertion: intermediate value fits"); uint32_t a = toy_fold((uint32_t)w & 0x7fff, m); usym_assert((a != 0) & (a != q) & (a != 2 * q), "assertion: zero is not inverted");
  uint8_t r; char nm[6] = "inv00"; nm[3] = (char)('0' + toy_n / 10 % 10); nm[4] = (char)('0' + toy_n++ % 10); usym_sym(&r, 1, nm); uint32_t v = toy_mul(a, r & q, m); usym_assume((r < q) & ((v == 1) | (v == q + 1))); small_put(r & q, x);
}
static uint32_t toy_z; static int toy_calls; void toy_random(uint32_t z) { toy_z = z; toy_calls = 0; }
uint32_t toy_random32(void) { return toy_calls++ % 9 ? 0 : toy_z; }
// Discrete logarithms instead of points: x is the (signed, 270-bit) logarithm, y and z are 1 or the negated 1.
typedef signed _BitInt(270) LG; struct jac { bignum256 x, y, z; };
static LG lg_get(const bignum256 *x) { unsigned _BitInt(270) v = 0; for (int i = 8; i >= 0; i--) v = v << 30 | x->val[i]; return (LG)v; }
static void lg_put(LG l, bignum256 *x) { unsigned _BitInt(270) v = (unsigned _BitInt(270))l; for (int i = 0; i < 9; i++) { x->val[i] = (uint32_t)v & 0x3fffffff; v >>= 30; } }
static LG lg_of(const bignum256 *x, const bignum256 *y, const bignum256 *z) { LG l = lg_get(x); int neg = (y->val[0] != 1) ^ (z ? z->val[0] != 1 : 0); return neg ? -l : l; }
static int lg_bad; int eclog_on(void) { return 1 + lg_bad; } // did a projective sum come out as infinity, which has no projective form there?
void lg_curve_to_jacobian(const curve_point *p, struct jac *j, const bignum256 *prime) { lg_put(lg_of(&p->x, &p->y, 0), &j->x); bn_one(&j->y); bn_one(&j->z); }
void lg_jacobian_to_curve(const struct jac *j, curve_point *p, const bignum256 *prime) { LG l = lg_of(&j->x, &j->y, &j->z); lg_put(l, &p->x); bn_one(&p->y); }
void lg_point_jacobian_add(const curve_point *p, struct jac *j, const ecdsa_curve *c) { LG l = lg_of(&j->x, &j->y, &j->z) + lg_of(&p->x, &p->y, 0), n = lg_get(&c->order); lg_bad |= (l == 0) | (l == n) | (l == -n); lg_put(l, &j->x); bn_one(&j->y); bn_one(&j->z); }
void lg_point_jacobian_double(struct jac *j, const ecdsa_curve *c) { LG l = lg_of(&j->x, &j->y, &j->z); lg_put(l + l, &j->x); bn_one(&j->y); bn_one(&j->z); }
void lg_point_add(const ecdsa_curve *c, const curve_point *p, curve_point *q) { lg_put(lg_of(&p->x, &p->y, 0) + lg_of(&q->x, &q->y, 0), &q->x); bn_one(&q->y); }
void lg_point_double(const ecdsa_curve *c, curve_point *q) { LG l = lg_of(&q->x, &q->y, 0); lg_put(l + l, &q->x); bn_one(&q->y); }
}
