// ECDSA and Schnorr signatures, ECDH.
#include "h.h"
#include "Bitcoin.h"
#include "Hash.h"
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/hmac.h"
#include "utility/trezor/secp256k1.h"
}
typedef BI(256) u256;
static u256 N256() { static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; u256 n = 0; for (int i = 0; i < 8; i++) n = n << 32 | N[i]; return n; }
static u256 be(const uint8_t *p) { u256 v = 0; for (int i = 0; i < 32; i++) v = v << 8 | p[i]; return v; }
static void tobe(u256 v, uint8_t *o) { for (int i = 31; i >= 0; i--) { o[i] = (uint8_t)v; v >>= 8; } }
static int inrange(const uint8_t *k) { u256 v = be(k); return (v != 0) & (v < N256()); }
static uint8_t *key(const char *name) { uint8_t *k = symbuf(32, name); ASSUME(inrange(k)); return k; }
#define ORD (&secp256k1.order)
static void mulG(const uint8_t *k, uint8_t *pt) { bignum256 b; curve_point R; bn_read_be(k, &b); scalar_multiply(&secp256k1, &b, &R); bn_write_be(&R.x, pt); bn_write_be(&R.y, pt + 32); }
static void mulP(const uint8_t *k, const uint8_t *p, uint8_t *pt) { bignum256 b; curve_point P, R; bn_read_be(k, &b); bn_read_be(p, &P.x); bn_read_be(p + 32, &P.y); point_multiply(&secp256k1, &b, &P, &R); bn_write_be(&R.x, pt); bn_write_be(&R.y, pt + 32); }
static void addP(const uint8_t *p, const uint8_t *q, uint8_t *pt) { curve_point P, Q; bn_read_be(p, &P.x); bn_read_be(p + 32, &P.y); bn_read_be(q, &Q.x); bn_read_be(q + 32, &Q.y); point_add(&secp256k1, &P, &Q); bn_write_be(&Q.x, pt); bn_write_be(&Q.y, pt + 32); }
static void mulN(const uint8_t *a, const uint8_t *b, uint8_t *o) { bignum256 x, y; bn_read_be(a, &x); bn_read_be(b, &y); bn_multiply(&x, &y, ORD); bn_mod(&y, ORD); bn_write_be(&y, o); }
static void invN(const uint8_t *a, uint8_t *o) { bignum256 x; bn_read_be(a, &x); bn_inverse(&x, ORD); bn_write_be(&x, o); }
static void negN(int odd, const uint8_t *a, uint8_t *o) { memcpy(o, a, 32); if (odd) { bignum256 x, y; bn_read_be(a, &x); bn_subtract(ORD, &x, &y); bn_write_be(&y, o); } }
static int oncurve(const uint8_t *p) { curve_point P; bn_read_be(p, &P.x); bn_read_be(p + 32, &P.y); return ecdsa_validate_pubkey(&secp256k1, &P); }
// the equation of ECDSA for a given nonce; 0 when the nonce has to be rejected
static int refsign(const uint8_t *d, const uint8_t *h, const uint8_t *k, uint8_t *rs, uint8_t *rec) {
  if (!inrange(k)) return 0; uint8_t R[64], t[32], ki[32]; mulG(k, R); u256 n = N256(), x = be(R); bignum256 rx; bn_read_be(R, &rx); if (x >= n) bn_subtract(&rx, ORD, &rx); if (bn_is_zero(&rx)) return 0; bn_write_be(&rx, rs);
  bignum256 a, b; bn_read_be(d, &a); bn_read_be(rs, &b); bn_multiply(&b, &a, ORD); bn_read_be(h, &b); bn_add(&a, &b); // r d + z
  invN(k, ki); bn_read_be(ki, &b); bn_multiply(&b, &a, ORD); bn_mod(&a, ORD); bn_write_be(&a, t); u256 s = be(t); if (s == 0) return 0; int hi = s > n >> 1; tobe(hi ? n - s : s, rs + 32); *rec = (uint8_t)((R[63] & 1) ^ hi) | (x >= n ? 2 : 0); return 1;
}
// RFC 6979, section 3.2 (the hash as given, as libsecp256k1 does)
struct Drbg { uint8_t k[32], v[32]; void mac(const uint8_t *m, int n, uint8_t *o) { uint8_t t[32]; ubtc_hmac_sha256(k, 32, m, n, t); memcpy(o, t, 32); }
  void up(int b, const uint8_t *x, const uint8_t *h) { uint8_t m[97]; memcpy(m, v, 32); m[32] = (uint8_t)b; if (x) { memcpy(m + 33, x, 32); memcpy(m + 65, h, 32); } mac(m, x ? 97 : 33, k); mac(v, 32, v); }
  Drbg(const uint8_t *x, const uint8_t *h) { memset(v, 1, 32); memset(k, 0, 32); up(0, x, h); up(1, x, h); }
  void next(uint8_t *o) { mac(v, 32, v); memcpy(o, v, 32); } void reject() { up(0, 0, 0); } };
extern "C" void h_sign() { // nonces of RFC 6979 in order, the first acceptable one is used
  uint8_t *d = key("secret"), *h = symbuf(32, "hash"), rs[64], rec = 0, k[32]; int skip = usym_param("skip", 0), why = usym_param("why", 0);
  PrivateKey p(d, (bool)usym_param("comp", 1), &Testnet); Drbg st(d, h);
  for (int i = 0; i < skip; i++) { st.next(k); if (why == 0) ASSUME(!inrange(k)); ASSUME(!refsign(d, h, k, rs, &rec)); st.reject(); }
  st.next(k); ASSUME(refsign(d, h, k, rs, &rec)); Signature s = p.sign(h); uint8_t o[64]; s.bin(o, 64);
  ASSERT(eq(o, rs, 32), "r is the x coordinate of the nonce point modulo the order"); ASSERT(eq(o + 32, rs + 32, 32), "s solves the signature equation and is in the lower half"); ASSERT(s.index == rec, "recovery index"); REACH("signed");
  uint8_t g[32]; p.getSecret(g); ASSERT(eq(g, d, 32), "the key does not change");
}
extern "C" void opq_known(const uint8_t *pt) __attribute__((weak));
static void point(uint8_t *pt, const char *name) { usym_sym(pt, 64, name); u256 p = (u256)0 - ((u256)1 << 32) - 977; ASSUME((be(pt) < p) & (be(pt + 32) < p) & (be(pt + 32) != 0)); if (opq_known) opq_known(pt); ASSUME(oncurve(pt)); }
extern "C" void h_verify() {
  uint8_t pt[64], *rs = symbuf(64, "signature"), *h = symbuf(32, "hash"), w[32], u1[32], u2[32], A[64], B[64], C[64]; point(pt, "point"); PublicKey P(pt, (bool)usym_param("comp", 1)); u256 n = N256(), z = be(h); ASSUME((z != 0) & (z != n)); // documented: such hashes are always refused
  Signature sg(rs, rs + 32); bool ok = P.verify(sg, h);
  if (!(inrange(rs) && inrange(rs + 32))) { ASSERT(!ok, "r and s are between 1 and the order"); REACH("range"); return; }
  invN(rs + 32, w); mulN(w, h, u1); mulN(rs, w, u2); mulG(u1, A); mulP(u2, pt, B); addP(B, A, C); u256 x = be(C); x = x >= n ? x - n : x;
  ASSERT(ok == (x == be(rs)), "a signature is accepted exactly when the equation holds"); REACH(ok ? "accepted" : "refused");
}
extern "C" void h_verify_key() { // points that are not on the curve
  uint8_t pt[64], *rs = symbuf(64, "signature"), *h = symbuf(32, "hash"); usym_sym(pt, 64, "point"); int how = usym_param("how", 0); if (how == 0) ASSUME(!oncurve(pt)); else memset(pt, 0, 64);
  PublicKey P(pt, false); Signature sg(rs, rs + 32); SchnorrSignature ss(rs); ASSERT(!P.verify(sg, h), "no ECDSA signature of a point off the curve is accepted"); ASSERT(!P.schnorr_verify(ss, h), "no Schnorr signature of a point off the curve is accepted"); REACH("off");
}
static void tagged(const char *tag, const uint8_t *a, const uint8_t *b, const uint8_t *c, uint8_t *o) { uint8_t m[160], t[32]; sha256_Raw((const uint8_t *)tag, strlen(tag), t); memcpy(m, t, 32); memcpy(m + 32, t, 32); memcpy(m + 64, a, 32); memcpy(m + 96, b, 32); memcpy(m + 128, c, 32); sha256_Raw(m, 160, o); }
extern "C" void h_schnorr_sign() {
  uint8_t *d = key("secret"), *h = symbuf(32, "hash"), P[64], R[64], dd[32], k[32], e[32], t[32], s[32], kk[32], o[64]; PrivateKey p(d, (bool)usym_param("comp", 1), &Testnet);
  mulG(d, P); u256 n = N256(); negN(P[63] & 1, d, dd); tagged("BIP0340/nonce", dd, P, h, k); ASSUME(inrange(k)); mulG(k, R); negN(R[63] & 1, k, kk);
  tagged("BIP0340/challenge", R, P, h, e); ASSUME(inrange(e)); mulN(e, dd, t); BI(264) sum = (BI(264))be(kk) + be(t); if (sum >= n) sum -= n; tobe((u256)sum, s);
  SchnorrSignature g = p.schnorr_sign(h); ASSERT(g.serialize(o, 64) == 64, "64 bytes"); ASSERT(eq(o, R, 32), "r is the x coordinate of the nonce point"); ASSERT(eq(o + 32, s, 32), "s is the nonce plus challenge times secret, of the points with even y"); REACH("signed");
  uint8_t gg[32]; p.getSecret(gg); ASSERT(eq(gg, d, 32) && p.network == &Testnet, "the key does not change");
}
extern "C" void h_schnorr_verify() {
  uint8_t pt[64], *rs = symbuf(64, "signature"), *h = symbuf(32, "hash"), e[32], P[64], R[64], A[64], B[64], S[64]; point(pt, "point"); PublicKey pub(pt, (bool)usym_param("comp", 1));
  tagged("BIP0340/challenge", rs, pt, h, e); ASSUME(inrange(e)); bool ok = pub.schnorr_verify(SchnorrSignature(rs), h);
  memcpy(P, pt, 64); bignum256 x, y; bn_read_be(pt, &x); uncompress_coords(&secp256k1, 0, &x, &y); if (pt[63] & 1) bn_write_be(&y, P + 32);
  bn_read_be(rs, &x); int good = bn_is_less(&x, &secp256k1.prime) && be(rs + 32) < N256(); if (!good) { ASSERT(!ok, "r is a field element and s below the order"); REACH("range"); return; }
  memcpy(R, rs, 32); uncompress_coords(&secp256k1, 0, &x, &y); bn_write_be(&y, R + 32); if (!oncurve(R)) { ASSERT(!ok, "r is an x coordinate of the curve"); REACH("no point"); return; }
  if (be(rs + 32) == 0) return; mulP(e, P, A); addP(A, R, S); mulG(rs + 32, B); ASSERT(ok == (eq(S, B, 64) != 0), "a signature is accepted exactly when s G = R + e P"); REACH(ok ? "accepted" : "refused");
}
extern "C" void h_ecdh() {
  uint8_t *d = key("secret"), pt[64], S[64], o[32], ref[32]; point(pt, "point"); int hash = usym_param("hash", 1); PrivateKey p(d); PublicKey P(pt, (bool)usym_param("comp", 1)); ASSERT(p.ecdh(P, o, hash) == 1, "shared secret"); mulP(d, pt, S);
  if (hash) sha256_Raw(S, 64, ref); else memcpy(ref, S, 32); ASSERT(eq(o, ref, 32), "the shared secret is that of the product point"); REACH("ecdh");
}
