// Limb arithmetic modulo the field prime and the group order.
#include "h.h"
extern "C" {
#include "utility/trezor/bignum.h"
#include "utility/trezor/secp256k1.h"
}
typedef BI(640) W;
static W wide(const uint32_t *v) { W r = 0; for (int i = 0; i < 8; i++) r = r << 32 | v[i]; return r; }
static W Pp() { static const uint32_t P[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xfffffc2f}; return wide(P); }
static W Nn() { static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; return wide(N); }
static W val(const bignum256 *x) { W r = 0; for (int i = 8; i >= 0; i--) r = r << 30 | x->val[i]; return r; }
static void num(W v, bignum256 *x) { for (int i = 0; i < 9; i++) { x->val[i] = (uint32_t)v & 0x3fffffff; v >>= 30; } }
static const W m() { return usym_param("order", 0) ? Nn() : Pp(); }
static const bignum256 *mod() { return usym_param("order", 0) ? &secp256k1.order : &secp256k1.prime; }
// any number with limbs of 30 bits and a top limb of `top` bits
static void any(bignum256 *x, const char *name, unsigned top) { usym_sym(x, sizeof *x, name); for (int i = 0; i < 8; i++) x->val[i] &= 0x3fffffff; x->val[8] &= (1u << top) - 1; }
static int norm(const bignum256 *x) { int ok = 1; for (int i = 0; i < 9; i++) ok &= x->val[i] < 0x40000000; return ok; }
// any number with limbs of 30 bits below 178 * 2^256 and a little more (a sum of bit fields, so that its range is evident)
static void big(bignum256 *x, const char *name) { any(x, name, 23); uint32_t t[2]; usym_sym(t, sizeof t, name); x->val[8] += (t[0] & 0x1fffff) + (t[0] >> 21 & 0x3ff) + (t[1] & 0xfffff) + (t[1] >> 20 & 0xfff); uint32_t u; usym_sym(&u, sizeof u, name); x->val[8] += (u & 0x1ffff) + (u >> 17 & 0x7fff); }
extern "C" void h_mul() {
  bignum256 k, x, k0, r; big(&k, "k"); big(&x, "x"); k0 = k; r = x; bn_multiply(&k, &r, mod());
  W spec = 0; for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) spec += (W)k0.val[i] * (W)x.val[j] << (30 * (i + j));
  ASSERT(norm(&r), "limbs are normalized"); ASSERT(val(&r) < 2 * m(), "the product is partly reduced"); ASSERT((spec + (m() << 30) - val(&r)) % m() == 0, "the product is exact modulo the prime"); ASSERT(memcmp(&k, &k0, sizeof k) == 0, "the first factor is unchanged"); REACH("mul");
}
static void congr(W a, W b, const char *what) { ASSERT((a + (m() << 40) - b) % m() == 0, what); }
static void partly(const bignum256 *r) { ASSERT(norm(r), "limbs are normalized"); ASSERT(val(r) < 2 * m(), "the result is partly reduced"); }
static W full(const bignum256 *x) { W r = 0; for (int i = 8; i >= 0; i--) r = (r << 30) + x->val[i]; return r; }
static void below(bignum256 *x, const char *name, int times) { any(x, name, 18); usym_assume(val(x) < m() * times); }
extern "C" void h_fast_mod() { // any number with limbs of 32 bits
  bignum256 x, y; usym_sym(&x, sizeof x, "x"); y = x; bn_fast_mod(&y, mod());
  partly(&y); congr(full(&x), val(&y), "the residue is kept"); REACH("fast_mod");
}
extern "C" void h_mult_k() { bignum256 x, y; any(&x, "x", 24); y = x; int k = usym_param("k", 2); bn_mult_k(&y, k, mod()); partly(&y); congr(val(&x) * k, val(&y), "a small multiple"); REACH("mult_k"); }
extern "C" void h_half() { bignum256 x, y; below(&x, "x", 2); y = x; bn_mult_half(&y, mod()); partly(&y); congr(val(&y) * 2, val(&x), "the half"); REACH("half"); }
extern "C" void h_mod() { bignum256 x, y; below(&x, "x", 2); y = x; bn_mod(&y, mod()); ASSERT(norm(&y), "limbs are normalized"); ASSERT(val(&y) < m(), "fully reduced"); congr(val(&x), val(&y), "the residue is kept"); REACH("mod"); }
extern "C" void h_addmod() { bignum256 x, y, z; any(&x, "x", 24); any(&y, "y", 24); z = x; bn_addmod(&z, &y, mod()); partly(&z); congr(val(&x) + val(&y), val(&z), "the sum"); REACH("addmod"); }
extern "C" void h_submod() { bignum256 x, y, z; any(&x, "x", 24); below(&y, "y", 2); int alias = usym_param("alias", 0); z = x; bignum256 yy = y; bn_subtractmod(alias == 1 ? &z : &x, alias == 2 ? &yy : &y, alias == 2 ? &yy : &z, mod()); if (alias == 2) z = yy; ASSERT(norm(&z), "limbs are normalized"); ASSERT(val(&z) == val(&x) + 2 * m() - val(&y), "the difference plus twice the modulus"); REACH("submod"); }
extern "C" void h_subi() { bignum256 x, y; any(&x, "x", 24); uint32_t b; usym_sym(&b, 4, "b"); usym_assume(b < 1000); y = x; bn_subi(&y, b, mod()); ASSERT(norm(&y), "limbs are normalized"); ASSERT(val(&y) == val(&x) + m() - b, "the difference plus the modulus"); REACH("subi"); }
extern "C" void h_shift() { bignum256 x, y; any(&x, "x", 28); y = x; bn_lshift(&y); ASSERT(norm(&y) && val(&y) == 2 * val(&x), "twice"); y = x; bn_rshift(&y); ASSERT(norm(&y) && val(&y) == val(&x) / 2, "half, rounded down"); y = x; bn_addi(&y, 1); ASSERT(norm(&y) && val(&y) == val(&x) + 1, "successor"); REACH("shift"); }
extern "C" void h_inv() { // a number with a few free bits at a position
  bignum256 x, y; unsigned n = usym_param("n", 2), at = usym_param("at", 0); uint8_t b; usym_sym(&b, 1, "b"); b &= (1 << n) - 1; W v = (W)b << at; switch (usym_param("base", 0)) { case 1: v += m() - ((W)1 << at) * (1 << n); break; case 2: v += (m() >> 1) / 3; break; case 4: v += (m() >> 2) + ((W)1 << 200); break; case 5: v += (W)0xffffffffffffffffull << 64; break; case 3: v = (v ^ (W)0x9e3779b97f4a7c15ull << 150); break; }
  usym_assume(v != 0 && v < m()); num(v, &x); y = x; bn_inverse(&y, mod());
  ASSERT(norm(&y) && val(&y) < m(), "reduced"); ASSERT(val(&y) * v % m() == 1, "the inverse"); REACH("inverse");
}
// multiplication stands for the addition of exponents: g^e is written e + 1, so that one is the number 1
extern "C" void h_sqrt() {
  bignum256 x; uint8_t e; usym_sym(&e, 1, "e"); e &= 7; num((W)e + 1, &x); bn_sqrt(&x, &secp256k1.prime);
  ASSERT(norm(&x) && val(&x) < Pp(), "reduced"); ASSERT(val(&x) == (W)(e * ((Pp() + 1) / 4) + 1) % Pp(), "the power (p + 1) / 4"); REACH("sqrt");
}
