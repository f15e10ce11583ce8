// The group law: formulas over small fields, recoding of scalars over logarithms, the precomputed table.
#include "h.h"
extern "C" {
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
struct jac { bignum256 x, y, z; };
#define WEAK __attribute__((weak))
void curve_to_jacobian(const curve_point *p, struct jac *jp, const bignum256 *prime) WEAK;
void jacobian_to_curve(const struct jac *jp, curve_point *p, const bignum256 *prime) WEAK;
void point_jacobian_add(const curve_point *p1, struct jac *p2, const ecdsa_curve *curve) WEAK;
void point_jacobian_double(struct jac *p, const ecdsa_curve *curve) WEAK;
void toy_random(uint32_t z) WEAK; int eclog_on(void) WEAK;
}
static uint32_t q; static ecdsa_curve *toy; static unsigned B;
static void small(bignum256 *x, uint32_t v) { memset(x, 0, sizeof *x); x->val[0] = v; }
static void setup() { q = (uint32_t)usym_param("q", 31); toy = (ecdsa_curve *)calloc(1, sizeof(ecdsa_curve)); small(&toy->prime, q); toy->a = 0; uint8_t b; usym_sym(&b, 1, "b"); ASSUME((b > 0) & (b < q)); if (usym_param("bf", 0)) { ASSUME(b == usym_param("bf", 0)); b = (uint8_t)usym_param("bf", 0); } B = b; small(&toy->b, b); if (!toy_random) usym_kill(); }
static uint32_t md(uint32_t v) { unsigned s = q == 7 ? 3 : q == 31 ? 5 : 7; for (int i = 0; i < 4; i++) v = (v >> s) + (v & q); v &= q; return v == q ? 0 : v; } // modulo 2^s - 1, for values below 2^(3s)
static uint32_t coord(const char *n) { uint8_t v; usym_sym(&v, 1, n); ASSUME(v < q); return v; }
static int on(uint32_t x, uint32_t y) { return md(y * y) == md(md(x * x) * x + B); }
static void affine(curve_point *p, uint32_t *x, uint32_t *y, const char *nx, const char *ny) { *x = coord(nx); *y = coord(ny); ASSUME(on(*x, *y)); small(&p->x, *x); small(&p->y, *y); }
static int low(const bignum256 *x, uint32_t *v) { uint32_t h = 0; for (int i = 1; i < 9; i++) h |= x->val[i]; *v = x->val[0]; return h == 0; }
// (X/Z^2, Y/Z^3) is the sum of two points that are not opposite
static int is_sum(uint32_t x1, uint32_t y1, uint32_t x2, uint32_t y2, uint32_t X, uint32_t Y, uint32_t Z) {
  int dbl = (x1 == x2); uint32_t dx = dbl ? md(2 * y1) : md(x2 + q - x1), dy = dbl ? md(3 * md(x1 * x1)) : md(y2 + q - y1), z2 = md(Z * Z), z3 = md(z2 * Z), d2 = md(dx * dx);
  uint32_t l = md(md(X + md(md(x1 + x2) * z2)) * d2), r = md(md(dy * dy) * z2), l2 = md(md(Y + md(y1 * z3)) * dx), r2 = md(md(dy * Z) * md(md(x1 * z2) + q - X)); return (l == r) & (l2 == r2) & (Z != 0);
}
extern "C" void h_add() {
  setup(); curve_point P, Q; uint32_t x1, y1, x2, y2, X, Y; int how = usym_param("how", 0); affine(&P, &x1, &y1, "x1", "y1"); affine(&Q, &x2, &y2, "x2", "y2");
  if (how == 1) { small(&P.x, 0); small(&P.y, 0); point_add(toy, &P, &Q); ASSERT(low(&Q.x, &X) & low(&Q.y, &Y) & (X == x2) & (Y == y2), "infinity is neutral"); REACH("sum"); return; }
  if (how == 2) { small(&Q.x, 0); small(&Q.y, 0); point_add(toy, &P, &Q); ASSERT(low(&Q.x, &X) & low(&Q.y, &Y) & (X == x1) & (Y == y1), "infinity is neutral"); REACH("sum"); return; }
  if (how == 3) { ASSUME((x1 == x2) & (md(y1 + y2) == 0) & (y1 != 0)); point_add(toy, &P, &Q); ASSERT(point_is_infinity(&Q), "opposite points add to infinity"); REACH("sum"); return; }
  if (how == 4) { ASSUME((x1 == x2) & (y1 == y2)); ASSUME(y1 != 0); point_double(toy, &Q); } // there is no point of order two on the real curve
  else { ASSUME(!((x1 == x2) & (md(y1 + y2) == 0)) & (y1 != 0) & (y2 != 0)); point_add(toy, &P, &Q); ASSERT(low(&P.x, &X) & low(&P.y, &Y) & (X == x1) & (Y == y1), "the first operand is unchanged"); }
  ASSERT(low(&Q.x, &X) & low(&Q.y, &Y) & (X < q) & (Y < q), "the sum is reduced"); ASSERT(is_sum(x1, y1, x2, y2, X, Y, 1), "the sum is that of the group law"); REACH("sum");
}
// some partly reduced projective form of a point
static void projective(struct jac *J, uint32_t x, uint32_t y, uint32_t *Z) { uint8_t z, m; usym_sym(&z, 1, "z"); ASSUME((z < 2 * q) & (md(z) != 0)); if (usym_param("zf", 0)) { ASSUME(z == usym_param("zf", 0)); z = (uint8_t)usym_param("zf", 0); } usym_sym(&m, 1, "more"); uint32_t z2 = md((uint32_t)z * z); *Z = md(z); small(&J->z, z); small(&J->x, md(x * z2) + (m & 1 ? q : 0)); small(&J->y, md(y * md(z2 * z)) + (m & 2 ? q : 0)); }
extern "C" void h_jadd() {
  setup(); if (!point_jacobian_add || !point_jacobian_double) { REACH("sum"); return; } curve_point P; uint32_t x1, y1, x2, y2, X, Y, Z; int dbl = usym_param("dbl", 0); affine(&P, &x2, &y2, "x2", "y2"); struct jac J; projective(&J, x2, y2, &Z);
  if (dbl == 1) { ASSUME(y2 != 0); point_jacobian_double(&J, toy); x1 = x2; y1 = y2; }
  else { affine(&P, &x1, &y1, "x1", "y1"); if (dbl == 2) ASSUME((x1 == x2) & (y1 == y2) & (y1 != 0)); else ASSUME(x1 != x2); point_jacobian_add(&P, &J, toy); }
  ASSERT(low(&J.x, &X) & low(&J.y, &Y) & low(&J.z, &Z) & (X < 2 * q) & (Y < 2 * q) & (Z < 2 * q), "the sum is partly reduced"); ASSERT(is_sum(x1, y1, x2, y2, md(X), md(Y), md(Z)), "the projective sum is that of the group law"); REACH("sum");
}
extern "C" void h_jconv() { // to and from projective coordinates, with any random z
  setup(); if (!curve_to_jacobian || !jacobian_to_curve) { REACH("conv"); return; } curve_point P, R; uint32_t x, y, X, Y, Z; affine(&P, &x, &y, "x", "y"); struct jac J; 
  if (usym_param("to", 1)) { uint8_t z; usym_sym(&z, 1, "z"); ASSUME((z > 0) & (z < q)); toy_random(z); curve_to_jacobian(&P, &J, &toy->prime); ASSERT(low(&J.x, &X) & low(&J.y, &Y) & low(&J.z, &Z) & (X < 2 * q) & (Y < 2 * q) & (Z < 2 * q) & (Z != 0), "partly reduced"); uint32_t z2 = md(Z * Z); ASSERT((md(X) == md(x * z2)) & (md(Y) == md(y * md(z2 * Z))), "the projective point is the affine one"); }
  else { projective(&J, x, y, &Z); jacobian_to_curve(&J, &R, &toy->prime); ASSERT(low(&R.x, &X) & low(&R.y, &Y) & (X == x) & (Y == y), "the affine point is the projective one"); }
  REACH("conv");
}
extern "C" void h_lift() {
  setup(); uint32_t x = coord("x"), y; bignum256 bx, by; small(&bx, x); curve_point P; int how = usym_param("how", 0);
  if (how == 0) { uint32_t r = coord("root"); ASSUME(on(x, r)); uint8_t odd; usym_sym(&odd, 1, "odd"); ASSUME(r != 0); uncompress_coords(toy, odd, &bx, &by); ASSERT(low(&by, &y) & (y < q), "reduced"); ASSERT(on(x, y) & ((y & 1) == (odd & 1)), "y is the root with the asked parity"); REACH("lift"); return; }
  { uint8_t wx, wy; usym_sym(&wx, 1, "wx"); usym_sym(&wy, 1, "wy"); ASSUME((wx < 3 * q) & (wy < 3 * q)); x = wx; y = wy; } small(&P.x, x); small(&P.y, y); int ok = ecdsa_validate_pubkey(toy, &P); ASSERT(ok == ((x < q) & (y < q) && on(x, y) && (x | y)), "a point is valid exactly when it solves the curve equation"); REACH(ok ? "on" : "off");
}
typedef BI(512) W; typedef BI(256) u256; typedef signed _BitInt(270) LG;
static W wide(const uint32_t *v) { W r = 0; for (int i = 0; i < 8; i++) r = r << 32 | v[i]; return r; }
static W Pp() { static const uint32_t P[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xfffffc2f}; return wide(P); }
static W Nn() { static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; return wide(N); }
static W Gx() { static const uint32_t g[] = {0x79be667e, 0xf9dcbbac, 0x55a06295, 0xce870b07, 0x029bfcdb, 0x2dce28d9, 0x59f2815b, 0x16f81798}; return wide(g); }
static W Gy() { static const uint32_t g[] = {0x483ada77, 0x26a3c465, 0x5da4fbfc, 0x0e1108a8, 0xfd17b448, 0xa6855419, 0x9c47d08f, 0xfb10d4b8}; return wide(g); }
static W val(const bignum256 *x) { W r = 0; for (int i = 8; i >= 0; i--) r = r << 30 | x->val[i]; return r; }
static void num(W v, bignum256 *x) { for (int i = 0; i < 9; i++) { x->val[i] = (uint32_t)v & 0x3fffffff; v >>= 30; } }
static W M(W a, W b) { return a * b % Pp(); }
static W S(W a, W b) { return (a + Pp() - b) % Pp(); }
// is r the sum of p1 and p2 (neither opposite nor infinity)?
static int sum_ok(const W *p, const W *o, const W *r) { int dbl = p[0] == o[0]; W dx = dbl ? M(2, p[1]) : S(o[0], p[0]), dy = dbl ? M(3, M(p[0], p[0])) : S(o[1], p[1]); return M((r[0] + p[0] + o[0]) % Pp(), M(dx, dx)) == M(dy, dy) && M((r[1] + p[1]) % Pp(), dx) == M(dy, S(p[0], r[0])) && r[0] < Pp() && r[1] < Pp(); }
static void get(const curve_point *c, W *o) { o[0] = val(&c->x); o[1] = val(&c->y); }
extern "C" void h_table() { // constants, and cp[i][j] = (2j+1) 16^i G
  ASSERT(val(&secp256k1.prime) == Pp() && val(&secp256k1.order) == Nn() && val(&secp256k1.order_half) == Nn() / 2 && secp256k1.a == 0 && val(&secp256k1.b) == 7, "constants of the curve"); ASSERT(val(&secp256k1.G.x) == Gx() && val(&secp256k1.G.y) == Gy(), "generator");
#if USE_PRECOMPUTED_CP
  W b[2] = {Gx(), Gy()}, t[2], e[2];
  for (int i = 0; i < 64; i++) {
    get(&secp256k1.cp[i][0], t); ASSERT(i == 0 ? t[0] == b[0] && t[1] == b[1] : sum_ok(e, b, t), "the table starts each row with sixteen times the row before"); b[0] = t[0]; b[1] = t[1];
    W l = M(3, M(b[0], b[0])), Z = M(2, b[1]), z2 = M(Z, Z), z3 = M(z2, Z), X = S(M(l, l), M(M(2, b[0]), z2)), Y = S(M(l, S(M(b[0], z2), X)), M(b[1], z3)); // twice b is (X/Z^2, Y/Z^3)
    for (int j = 1; j < 8; j++) {
      get(&secp256k1.cp[i][j], e); W D = S(X, M(t[0], z2)), N = S(Y, M(t[1], z3)), D2 = M(D, D);
      ASSERT(D != 0 && e[0] < Pp() && e[1] < Pp() && (M(M((e[0] + t[0]) % Pp(), z2), D2) + M(X, D2)) % Pp() == M(N, N) && M(M((e[1] + t[1]) % Pp(), Z), D) == M(N, S(t[0], e[0])), "table entries of a row differ by twice its base"); t[0] = e[0]; t[1] = e[1];
    }
  }
#endif
  REACH("table");
}
// affine double-and-add, for the native replay
static void refmul(W k, const W *p, W *o) {
  bool inf = true; W x = 0, y = 0; auto inv = [](W a) { W r = 1, e = Pp() - 2; while (e) { if (e & 1) r = M(r, a); a = M(a, a); e >>= 1; } return r; };
  for (int i = 255; i >= 0; i--) {
    if (!inf) { W l = M(M(3, M(x, x)), inv(M(2, y))), nx = S(M(l, l), M(2, x)); y = S(M(l, S(x, nx)), y); x = nx; }
    if ((k >> i) & 1) { if (inf) { x = p[0]; y = p[1]; inf = false; } else { W l = M(S(p[1], y), inv(S(p[0], x))), nx = S(S(M(l, l), x), p[0]); y = S(M(l, S(x, nx)), y); x = nx; } }
  }
  o[0] = x; o[1] = y;
}
extern "C" void h_recode() { // k P and k G for scalars with a few free bits anywhere
  int at = usym_param("at", 0), bits = usym_param("bits", 6), pat = usym_param("pat", 0), gen = usym_param("gen", 0); W k = 0, n = Nn(); static const uint32_t pats[] = {0, 0xffffffff, 0x12345678, 0x9abcdef1, 0xfffffffe};
  for (int i = 0; i < 8; i++) k = k << 32 | (uint32_t)(pats[pat] * (pat > 1 && pat < 4 ? 2 * i + 1 : 1)); if (pat == 1) k = n - 1; if (pat == 4) k = n - 2; uint64_t f = usym_int("free", 0, ((uint64_t)1 << bits) - 1); W mask = (((W)1 << bits) - 1) << at; k = (k & ~mask) | ((W)f << at); ASSUME(k < n);
  if (!curve_to_jacobian || !jacobian_to_curve || !point_jacobian_add || !point_jacobian_double) { REACH("product"); return; } // not reachable one by one: P29 says nothing
  bignum256 K; num(k, &K); curve_point P, R; memset(&R, 0x5a, sizeof R);
  if (!eclog_on) { W p[2] = {Gx(), Gy()}, o[2], r[2]; if (!gen) { refmul(0xabcdef, p, r); p[0] = r[0]; p[1] = r[1]; num(p[0], &P.x); num(p[1], &P.y); point_multiply(&secp256k1, &K, &P, &R); } else scalar_multiply(&secp256k1, &K, &R); if (k == 0) { ASSERT(point_is_infinity(&R), "zero times a point is infinity"); REACH("zero"); return; } refmul(k, p, o); get(&R, r); ASSERT(o[0] == r[0] && o[1] == r[1], "the product is k times the point"); REACH("product"); return; }
  ecdsa_curve *c = (ecdsa_curve *)malloc(sizeof(ecdsa_curve)); memcpy((void *)c, (const void *)&secp256k1, sizeof *c);
#if USE_PRECOMPUTED_CP
  for (int i = 0; i < 64; i++) for (int j = 0; j < 8; j++) { curve_point *e = (curve_point *)&c->cp[i][j]; num((W)(2 * j + 1) << (4 * i), &e->x); bn_one(&e->y); }
#endif
  num(1, &P.x); bn_one(&P.y); c->G = P; if (gen) scalar_multiply(c, &K, &R); else point_multiply(c, &K, &P, &R);
  if (k == 0) { ASSERT(point_is_infinity(&R), "zero times a point is infinity"); REACH("zero"); free(c); return; }
  LG l = 0; { BI(270) v = 0; for (int i = 8; i >= 0; i--) v = v << 30 | R.x.val[i]; l = (LG)v; } LG kk = (LG)k, nn = (LG)n; ASSERT(((l == kk) | (l == kk - nn)) & (eclog_on() == 1), "the product is k times the point"); REACH("product"); free(c);
}
