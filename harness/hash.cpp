// Hashes, HMAC, PBKDF2 and the nonce generator. The reference is written from the standards (constants derived
// from the roots of the primes), except for the compression functions, which jobs may abstract on both sides.
#include "h.h"
#include "Hash.h"
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/hmac.h"
#include "utility/trezor/pbkdf2.h"
#include "utility/trezor/ripemd160.h"
#include "utility/trezor/rfc6979.h"
}
static const uint32_t K2[64] = {0x428a2f98u,0x71374491u,0xb5c0fbcfu,0xe9b5dba5u,0x3956c25bu,0x59f111f1u,0x923f82a4u,0xab1c5ed5u,0xd807aa98u,0x12835b01u,0x243185beu,0x550c7dc3u,0x72be5d74u,0x80deb1feu,0x9bdc06a7u,0xc19bf174u,0xe49b69c1u,0xefbe4786u,0xfc19dc6u,0x240ca1ccu,0x2de92c6fu,0x4a7484aau,0x5cb0a9dcu,0x76f988dau,0x983e5152u,0xa831c66du,0xb00327c8u,0xbf597fc7u,0xc6e00bf3u,0xd5a79147u,0x6ca6351u,0x14292967u,0x27b70a85u,0x2e1b2138u,0x4d2c6dfcu,0x53380d13u,0x650a7354u,0x766a0abbu,0x81c2c92eu,0x92722c85u,0xa2bfe8a1u,0xa81a664bu,0xc24b8b70u,0xc76c51a3u,0xd192e819u,0xd6990624u,0xf40e3585u,0x106aa070u,0x19a4c116u,0x1e376c08u,0x2748774cu,0x34b0bcb5u,0x391c0cb3u,0x4ed8aa4au,0x5b9cca4fu,0x682e6ff3u,0x748f82eeu,0x78a5636fu,0x84c87814u,0x8cc70208u,0x90befffau,0xa4506cebu,0xbef9a3f7u,0xc67178f2u};
static const uint64_t K5[80] = {0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0xfc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x6ca6351e003826full,0x142929670a0e6e70ull,0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x6f067aa72176fbaull,0xa637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
static const uint32_t H2[8] = {0x6a09e667u,0xbb67ae85u,0x3c6ef372u,0xa54ff53au,0x510e527fu,0x9b05688cu,0x1f83d9abu,0x5be0cd19u};
static const uint64_t H5[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
#define R32(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
#define R64(x, n) (((x) >> (n)) | ((x) << (64 - (n))))
extern "C" {
void ref_sha256(const uint32_t *si, const uint32_t *d, uint32_t *so) {
  uint32_t w[64], v[8]; for (int i = 0; i < 16; i++) w[i] = d[i]; for (int i = 16; i < 64; i++) w[i] = (R32(w[i - 2], 17) ^ R32(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] + (R32(w[i - 15], 7) ^ R32(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
  for (int i = 0; i < 8; i++) v[i] = si[i];
  for (int i = 0; i < 64; i++) { uint32_t t1 = v[7] + (R32(v[4], 6) ^ R32(v[4], 11) ^ R32(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K2[i] + w[i], t2 = (R32(v[0], 2) ^ R32(v[0], 13) ^ R32(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int j = 7; j > 0; j--) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
  for (int i = 0; i < 8; i++) so[i] = si[i] + v[i];
}
void ref_sha512(const uint64_t *si, const uint64_t *d, uint64_t *so) {
  uint64_t w[80], v[8]; for (int i = 0; i < 16; i++) w[i] = d[i]; for (int i = 16; i < 80; i++) w[i] = (R64(w[i - 2], 19) ^ R64(w[i - 2], 61) ^ (w[i - 2] >> 6)) + w[i - 7] + (R64(w[i - 15], 1) ^ R64(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 16];
  for (int i = 0; i < 8; i++) v[i] = si[i];
  for (int i = 0; i < 80; i++) { uint64_t t1 = v[7] + (R64(v[4], 14) ^ R64(v[4], 18) ^ R64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K5[i] + w[i], t2 = (R64(v[0], 28) ^ R64(v[0], 34) ^ R64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int j = 7; j > 0; j--) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
  for (int i = 0; i < 8; i++) so[i] = si[i] + v[i];
}
static uint32_t rf(int j, uint32_t x, uint32_t y, uint32_t z) { switch (j / 16) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); } return x ^ (y | ~z); }
#define L32(x, n) (((x) << (n)) | ((x) >> (32 - (n))))
void ref_rmd160(RIPEMD160_CTX *ctx, const uint8_t data[64]) {
  static const uint8_t r1[80] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static const uint8_t r2[80] = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static const uint8_t s1[80] = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static const uint8_t s2[80] = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static const uint32_t k1[5] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, k2[5] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
  uint32_t x[16], h[5]; for (int i = 0; i < 16; i++) x[i] = data[4 * i] | data[4 * i + 1] << 8 | data[4 * i + 2] << 16 | (uint32_t)data[4 * i + 3] << 24; for (int i = 0; i < 5; i++) h[i] = ctx->state[i];
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], A = a, B = b, C = c, D = d, EE = e, t;
  for (int j = 0; j < 80; j++) {
    t = a + rf(j, b, c, d) + x[r1[j]] + k1[j / 16]; t = L32(t, s1[j]) + e; a = e; e = d; d = L32(c, 10); c = b; b = t;
    t = A + rf(79 - j, B, C, D) + x[r2[j]] + k2[j / 16]; t = L32(t, s2[j]) + EE; A = EE; EE = D; D = L32(C, 10); C = B; B = t;
  }
  ctx->state[0] = h[1] + c + D; ctx->state[1] = h[2] + d + EE; ctx->state[2] = h[3] + e + A; ctx->state[3] = h[4] + a + B; ctx->state[4] = h[0] + b + C;
}
void ripemd160_process(RIPEMD160_CTX *ctx, const uint8_t data[64]) __attribute__((weak));
}
// ---- padding and chaining from the standards
static uint8_t *pad(const uint8_t *m, size_t n, size_t blk, size_t lenb, int le, size_t *total) {
  size_t t = n + 1 + lenb; t = (t + blk - 1) / blk * blk; uint8_t *p = (uint8_t *)malloc(t); memset(p, 0, t); if (n) memcpy(p, m, n); p[n] = 0x80; uint64_t bits = (uint64_t)n * 8; for (int i = 0; i < 8; i++) p[le ? t - 8 + i : t - 1 - i] = (uint8_t)(bits >> (8 * i)); *total = t; return p;
}
static void r256(const uint8_t *m, size_t n, uint8_t *o) { size_t t; uint8_t *p = pad(m, n, 64, 8, 0, &t); uint32_t s[8], w[16]; memcpy(s, H2, 32); for (size_t b = 0; b < t; b += 64) { for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[b + 4 * i] << 24 | p[b + 4 * i + 1] << 16 | p[b + 4 * i + 2] << 8 | p[b + 4 * i + 3]; ref_sha256(s, w, s); } for (int i = 0; i < 32; i++) o[i] = (uint8_t)(s[i / 4] >> (24 - 8 * (i % 4))); free(p); }
static void r512(const uint8_t *m, size_t n, uint8_t *o) { size_t t; uint8_t *p = pad(m, n, 128, 16, 0, &t); uint64_t s[8], w[16]; memcpy(s, H5, 64); for (size_t b = 0; b < t; b += 128) { for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[b + 8 * i + j]; } ref_sha512(s, w, s); } for (int i = 0; i < 64; i++) o[i] = (uint8_t)(s[i / 8] >> (56 - 8 * (i % 8))); free(p); }
static void r160(const uint8_t *m, size_t n, uint8_t *o) { size_t t; uint8_t *p = pad(m, n, 64, 8, 1, &t); RIPEMD160_CTX c; memset(&c, 0, sizeof c); static const uint32_t I[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; for (int i = 0; i < 5; i++) c.state[i] = I[i]; for (size_t b = 0; b < t; b += 64) ref_rmd160(&c, p + b); for (int i = 0; i < 20; i++) o[i] = (uint8_t)(c.state[i / 4] >> (8 * (i % 4))); free(p); }
static void rhmac(int h512, const uint8_t *key, size_t kl, const uint8_t *m, size_t n, uint8_t *o) {
  size_t B = h512 ? 128 : 64, D = h512 ? 64 : 32; uint8_t k[128], t[64], *a = (uint8_t *)malloc(B + n), b[192]; memset(k, 0, 128); if (kl > B) { if (h512) r512(key, kl, k); else r256(key, kl, k); } else if (kl) memcpy(k, key, kl);
  for (size_t i = 0; i < B; i++) { a[i] = k[i] ^ 0x36; b[i] = k[i] ^ 0x5c; } if (n) memcpy(a + B, m, n); if (h512) { r512(a, B + n, t); memcpy(b + B, t, D); r512(b, B + D, o); } else { r256(a, B + n, t); memcpy(b + B, t, D); r256(b, B + D, o); } free(a);
}
extern "C" void h_compress() { // the compression functions themselves, for every state and block
  int k = usym_param("kind", 0);
  if (k == 0) { uint32_t s[8], d[16], o[8], r[8]; usym_sym(s, 32, "state"); usym_sym(d, 64, "block"); sha256_Transform(s, d, o); ref_sha256(s, d, r); for (int i = 0; i < 8; i++) ASSERT(o[i] == r[i], "the SHA-256 compression function"); uint32_t q[16]; memcpy(q, d, 64); sha256_Transform(s, q, q); ASSERT(eq(q, o, 32), "the output may overlap the block"); }
  if (k == 1) { uint64_t s[8], d[16], o[8], r[8]; usym_sym(s, 64, "state"); usym_sym(d, 128, "block"); sha512_Transform(s, d, o); ref_sha512(s, d, r); for (int i = 0; i < 8; i++) ASSERT(o[i] == r[i], "the SHA-512 compression function"); uint64_t q[16]; memcpy(q, d, 128); sha512_Transform(s, q, q); ASSERT(eq(q, o, 64), "the output may overlap the block"); }
  if (k == 2) { RIPEMD160_CTX c, r; memset(&c, 0, sizeof c); usym_sym(c.state, 20, "state"); uint8_t d[64]; usym_sym(d, 64, "block"); memcpy(&r, &c, sizeof c); if (!ripemd160_process) return; ripemd160_process(&c, d); ref_rmd160(&r, d); for (int i = 0; i < 5; i++) ASSERT(c.state[i] == r.state[i], "the RIPEMD-160 compression function"); }
  REACH("compress");
}
static const char TAG[] = "BIP0340/nonce";
static size_t ref(int kind, const uint8_t *m, size_t n, uint8_t *o) {
  uint8_t t[32]; switch (kind) { case 0: r160(m, n, o); return 20; case 1: r256(m, n, o); return 32; case 2: r512(m, n, o); return 64; case 3: r256(m, n, t); r160(t, 32, o); return 20; case 4: r256(m, n, t); r256(t, 32, o); return 32; }
  uint8_t *b = (uint8_t *)malloc(64 + n); r256((const uint8_t *)TAG, strlen(TAG), b); memcpy(b + 32, b, 32); if (n) memcpy(b + 64, m, n); r256(b, 64 + n, o); free(b); return 32;
}
extern "C" void h_hash() {
  int kind = usym_param("kind", 0), mode = usym_param("mode", 0); size_t n = usym_param("n", 0); uint8_t *m = symbuf(n, "message"), o[64], r[64]; memset(o, 0x5a, 64); memset(r, 0x5a, 64); size_t l = ref(kind, m, n, r), g = 0; std::string s((const char *)m, n);
  if (mode == 0) switch (kind) { case 0: g = rmd160(m, n, o); break; case 1: g = sha256(m, n, o); break; case 2: g = sha512(m, n, o); break; case 3: g = hash160(m, n, o); break; case 4: g = doubleSha(m, n, o); break; default: g = tagged_hash(TAG, m, n, o); }
  else if (mode == 1) switch (kind) { case 0: g = rmd160((const char *)m, n, o); break; case 1: g = sha256((const char *)m, n, o); break; case 2: g = sha512((const char *)m, n, o); break; case 3: g = hash160((const char *)m, n, o); break; case 4: g = doubleSha((const char *)m, n, o); break; default: g = tagged_hash(TAG, (const char *)m, n, o); }
  else if (mode == 2) switch (kind) { case 0: g = rmd160(s, o); break; case 1: g = sha256(s, o); break; case 2: g = sha512(s, o); break; case 3: g = hash160(s, o); break; case 4: g = doubleSha(s, o); break; default: g = tagged_hash(std::string(TAG), s, o); }
  else if (mode == 3 && kind < 3) { if (kind == 0) ripemd160(m, n, o); else if (kind == 1) sha256_Raw(m, n, o); else sha512_Raw(m, n, o); g = l; }
  else g = l, memcpy(o, r, 64);
  ASSERT(g == l, "digest length"); ASSERT(eq(o, r, 64), "the digest of the whole message"); REACH("hash");
}
template <class H> static size_t stream(H &h, const uint8_t *m, size_t n, int mode, uint8_t *o) {
  if (usym_param("again", 0)) { uint8_t j[70]; memset(j, 0x77, 70); h.write(j, usym_param("again", 0)); h.begin(); }
  if (mode == 0) { size_t c = pick("cut", 0, n); uint8_t *a = dup(m, c), *b = dup(m + c, n - c); ASSERT(h.write(a, c) == c, "written"); free(a); ASSERT(h.write(b, n - c) == n - c, "written"); free(b); }
  else if (mode == 1) for (size_t i = 0; i < n; i++) ASSERT(h.write(m[i]) == 1, "written");
  else if (mode == 2) { size_t a = pick("cut", 0, n < 70 ? n : 70), b = a + pick("cut2", 0, 3); if (b > n) b = n; h.write(m, a); h.write(m + a, b - a); h.write(m + b, n - b); }
  else { h.write(m, n / 3); h.write((const uint8_t *)NULL, 0); h.write(m + n / 3, n - n / 3); }
  return h.end(o);
}
extern "C" void h_stream() {
  int kind = usym_param("kind", 0), mode = usym_param("mode", 0); size_t n = usym_param("n", 0), g; uint8_t *m = symbuf(n, "message"), o[64], r[64]; memset(o, 0x5a, 64); memset(r, 0x5a, 64); size_t l = ref(kind, m, n, r);
  if (kind == 0) { RMD160 h; g = stream(h, m, n, mode, o); } else if (kind == 1) { SHA256 h; g = stream(h, m, n, mode, o); } else if (kind == 2) { SHA512 h; g = stream(h, m, n, mode, o); } else if (kind == 3) { Hash160 h; g = stream(h, m, n, mode, o); } else if (kind == 4) { DoubleSha h; g = stream(h, m, n, mode, o); } else { TaggedHash h(TAG); g = stream(h, m, n, mode, o); }
  ASSERT(g == l && eq(o, r, 64), "a message written in pieces has the digest of the whole"); REACH("stream");
}
extern "C" void h_hmac() {
  int h5 = usym_param("h512", 0), mode = usym_param("mode", 0); size_t kl = usym_param("kl", 0), n = usym_param("n", 0), D = h5 ? 64 : 32; uint8_t *k = symbuf(kl, "key"), *m = symbuf(n, "message"), o[65], r[65]; memset(o, 0x5a, 65); memset(r, 0x5a, 65); rhmac(h5, k, kl, m, n, r); size_t g;
  if (mode == 0) g = h5 ? sha512Hmac(k, kl, m, n, o) : sha256Hmac(k, kl, m, n, o);
  else { size_t c = pick("cut", 0, n); SHA256 a; SHA512 b; if (mode == 2) { a.write(m, n); b.write(m, n); }
    if (h5) { b.beginHMAC(k, kl); b.write(m, c); for (size_t i = c; i < n && i < c + 2; i++) b.write(m[i]); if (c + 2 < n) b.write(m + c + 2, n - c - 2); g = b.endHMAC(o); } else { a.beginHMAC(k, kl); a.write(m, c); for (size_t i = c; i < n && i < c + 2; i++) a.write(m[i]); if (c + 2 < n) a.write(m + c + 2, n - c - 2); g = a.endHMAC(o); } }
  ASSERT(g == D && eq(o, r, 65), "HMAC of the message under the key"); REACH("hmac");
}
extern "C" void h_pbkdf2() {
  int h5 = usym_param("h512", 0), it = usym_param("it", 1); size_t pl = usym_param("pl", 0), sl = usym_param("sl", 0), kl = usym_param("kl", 32), D = h5 ? 64 : 32; uint8_t *p = symbuf(pl, "password"), *s = symbuf(sl, "salt"), *o = filled(kl, 0x5a), *sb = (uint8_t *)malloc(sl + 4), u[64], f[64]; if (sl) memcpy(sb, s, sl); int split = usym_param("split", 0);
  if (split) { uint8_t d[64]; if (h5) { PBKDF2_HMAC_SHA512_CTX c; pbkdf2_hmac_sha512_Init(&c, p, pl, s, sl, 1); pbkdf2_hmac_sha512_Update(&c, split); pbkdf2_hmac_sha512_Update(&c, it - split); pbkdf2_hmac_sha512_Final(&c, d); } else { PBKDF2_HMAC_SHA256_CTX c; pbkdf2_hmac_sha256_Init(&c, p, pl, s, sl, 1); pbkdf2_hmac_sha256_Update(&c, split); pbkdf2_hmac_sha256_Update(&c, it - split); pbkdf2_hmac_sha256_Final(&c, d); } memcpy(o, d, kl); }
  else if (h5) pbkdf2_hmac_sha512(p, pl, s, sl, it, o, kl); else pbkdf2_hmac_sha256(p, pl, s, sl, it, o, kl);
  for (size_t b = 0; b * D < kl; b++) { sb[sl] = sb[sl + 1] = sb[sl + 2] = 0; sb[sl + 3] = (uint8_t)(b + 1); rhmac(h5, p, pl, sb, sl + 4, u); memcpy(f, u, D); for (int i = 1; i < it; i++) { rhmac(h5, p, pl, u, D, u); for (size_t j = 0; j < D; j++) f[j] ^= u[j]; } size_t l = kl - b * D < D ? kl - b * D : D; ASSERT(eq(o + b * D, f, l), "PBKDF2"); }
  REACH("pbkdf2");
}
extern "C" void h_rfc6979() { // RFC 6979, 3.2: the sequence of candidates
  uint8_t *x = symbuf(32, "key"), *h = symbuf(32, "digest"), V[32], K[32], b[97]; memset(V, 1, 32); memset(K, 0, 32);
  for (int i = 0; i < 2; i++) { memcpy(b, V, 32); b[32] = i; memcpy(b + 33, x, 32); memcpy(b + 65, h, 32); rhmac(0, K, 32, b, 97, K); rhmac(0, K, 32, V, 32, V); }
  rfc6979_state st; init_rfc6979(x, h, &st); int n = usym_param("n", 3);
  for (int i = 0; i < n; i++) { uint8_t o[32]; rhmac(0, K, 32, V, 32, V); if (usym_param("bn", 0)) { bignum256 k; generate_k_rfc6979(&k, &st); bn_write_be(&k, o); } else generate_rfc6979(o, &st); ASSERT(eq(o, V, 32), "the candidates of RFC 6979 in order"); memcpy(b, V, 32); b[32] = 0; rhmac(0, K, 32, b, 33, K); rhmac(0, K, 32, V, 32, V); }
  REACH("rfc6979");
}
