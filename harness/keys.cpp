// Private and public keys, WIF, SEC, BIP32.
#include "h.h"
#include "Bitcoin.h"
#include "Conversion.h"
#include "Hash.h"
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/hmac.h"
#include "utility/trezor/ripemd160.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
}
typedef BI(256) u256;
static u256 N256() { static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141}; u256 n = 0; for (int i = 0; i < 8; i++) n = n << 32 | N[i]; return n; }
static u256 be(const uint8_t *p) { u256 v = 0; for (int i = 0; i < 32; i++) v = v << 8 | p[i]; return v; }
static void tobe(u256 v, uint8_t *o) { for (int i = 31; i >= 0; i--) { o[i] = (uint8_t)v; v >>= 8; } }
static int inrange(const uint8_t *k) { u256 v = be(k); return (v != 0) & (v < N256()); }
static uint8_t *key(const char *name) { uint8_t *k = symbuf(32, name); ASSUME(inrange(k)); return k; }
static const Network *NET[] = {&Mainnet, &Testnet, &Regtest, &Signet};
static void sec33(const uint8_t *pt, uint8_t *o) { o[0] = 2 + (pt[63] & 1); memcpy(o + 1, pt, 32); }
static void pubof(const uint8_t *k, uint8_t *pt) { uint8_t o[65]; ecdsa_get_public_key65(&secp256k1, k, o); memcpy(pt, o + 1, 64); }
static void h160(const uint8_t *p, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(p, n, t); ripemd160(t, 32, o); }
// SEC bytes to a point: coordinates and curve membership (the two field computations are the code's own)
static int refsec(const uint8_t *b, curve_point *p) {
  bn_read_be(b + 1, &p->x); if (b[0] == 4) bn_read_be(b + 33, &p->y); else if (b[0] == 2 || b[0] == 3) uncompress_coords(&secp256k1, b[0], &p->x, &p->y); else return 0;
  return ecdsa_validate_pubkey(&secp256k1, p);
}
// ---- WIF
extern "C" void h_wif() {
  uint8_t *k = key("secret"); int c = usym_param("comp", 1), t = usym_param("net", 0);
  PrivateKey pk(k, c, NET[t]); uint8_t e[34]; e[0] = t ? 0xef : 0x80; memcpy(e + 1, k, 32); e[33] = 1;
  char *ref = (char *)filled(100, 0); size_t l = toBase58Check(e, 33 + c, ref, 100);
  char *o = (char *)filled(100, 0x5a); int r = pk.wif(o, 100); ASSERT(r == (int)l && eq(o, ref, 100), "WIF of a key");
  std::string s = pk.wif(); ASSERT(s.size() == strlen(ref) && eq(s.data(), ref, s.size()), "WIF of a key (string)");
  PrivateKey q(s); uint8_t g[32]; q.getSecret(g); ASSERT(eq(g, k, 32), "WIF gives back the secret"); ASSERT(q.publicKey().compressed == (bool)c, "WIF gives back the compression flag"); ASSERT(q.network == NET[t ? 1 : 0], "WIF gives back the network");
  uint8_t pt[64]; pubof(k, pt); ASSERT(eq(q.publicKey().point, pt, 64), "public key of the parsed key"); REACH("wif");
}
extern "C" void h_wif_any() { // any checked payload
  size_t n = usym_param("n", 34); uint8_t *p = symbuf(n, "payload"); if (usym_param("pre", -1) >= 0) p[0] = usym_param("pre", 0);
  char *t = (char *)filled(140, 0); toBase58Check(p, n, t, 140); size_t l = strlen(t);
  int ok = (n == 33 || n == 34) && (p[0] == 0x80 || p[0] == 0xef) && (n == 33 || p[33] == 1) && inrange(p + 1);
  PrivateKey q; uint8_t g[32], z[32] = {0}; int used = usym_param("used", 0); if (used) { z[31] = 7; q.setSecret(z); z[31] = 0; }
  int r = usym_param("str", 0) ? (int)q.fromString(t, l) : q.fromWIF(t, l); q.getSecret(g);
  ASSERT((r != 0) == ok, "a WIF is accepted exactly when it is well formed");
  if (ok) { REACH("ok"); ASSERT(eq(g, p + 1, 32) && q.isValid(), "secret"); ASSERT(q.publicKey().compressed == (n == 34), "compression flag"); ASSERT(q.network == (p[0] == 0x80 ? &Mainnet : &Testnet), "network"); }
  else { REACH("bad"); ASSERT(eq(g, z, 32) && !q.isValid(), "a refused WIF leaves no key"); }
  PrivateKey w{std::string(t)}; ASSERT(w.isValid() == ok, "a key built from text is valid exactly when the text is well formed");
}
// ---- raw secrets: constructor, parse, setSecret
extern "C" void h_secret() {
  uint8_t *k = symbuf(32, "secret"); int form = usym_param("form", 0); uint8_t pt[64], g[32];
  if (form == 0) { // parse: reduced, zero refused
    PrivateKey p; size_t r = p.parse(k, 32); ASSERT(r == 32, "32 bytes are consumed"); u256 v = be(k), n = N256(); p.getSecret(g);
    ASSERT((p.getStatus() == PARSING_DONE) == ((v != 0) & (v != n)), "a secret is accepted unless it is zero modulo the group order");
    if (p.getStatus() == PARSING_DONE) { REACH("ok"); u256 m = v < n ? v : v - n; ASSERT(be(g) == m, "the secret is reduced modulo the group order"); tobe(m, g); pubof(g, pt); ASSERT(eq(p.publicKey().point, pt, 64), "public key"); } else REACH("zero");
    return;
  }
  ASSUME(inrange(k)); pubof(k, pt);
  if (form == 1) { int c = (int)pick("comp", 0, 1); PrivateKey p(k, c, &Testnet); p.getSecret(g); ASSERT(eq(g, k, 32) && p.publicKey().compressed == (bool)c && p.network == &Testnet && p.isValid(), "secret, flag and network"); ASSERT(eq(p.publicKey().point, pt, 64), "public key of the secret"); PrivateKey q = p, w; w = p; ASSERT(eq(q.publicKey().point, pt, 64) && w == p && w.network == p.network && q.network == p.network, "copies are equal"); }
  if (form == 2) { PrivateKey p; p.setSecret(k); p.getSecret(g); ASSERT(eq(g, k, 32) && eq(p.publicKey().point, pt, 64), "setSecret changes secret and public key"); ECScalar sc(k, 32); PrivateKey q(sc); q.getSecret(g); ASSERT(eq(g, k, 32) && eq(q.publicKey().point, pt, 64) && q.publicKey().compressed, "a key made of a scalar"); }
  REACH("secret");
}
// ---- ECDH
extern "C" void h_ecdh() { // the other party's point: any 64 bytes with coordinates below the field prime
  uint8_t *k = key("secret"), *b = symbuf(64, "point"); PrivateKey a(k); uint8_t s[32], e[32], pt[64]; int hash = (int)pick("hash", 0, 1), unc = usym_param("unc", 0);
  b[0] &= 0x3f; b[32] &= 0x7f; // another x than the generator's (0x79...)
  PublicKey B(b, !unc); ASSERT(a.ecdh(B, s, hash) == 1, "succeeds");
  bignum256 d; curve_point p, r; bn_read_be(k, &d); bn_read_be(b, &p.x); bn_read_be(b + 32, &p.y); point_multiply(&secp256k1, &d, &p, &r); bn_write_be(&r.x, pt); bn_write_be(&r.y, pt + 32);
  if (hash) sha256_Raw(pt, 64, e); else memcpy(e, pt, 32);
  ASSERT(eq(s, e, 32), "the shared secret is the x coordinate, or the hash of both coordinates, of secret times point"); REACH("ecdh");
}
// ---- SEC public keys
extern "C" void h_sec() {
  int mode = usym_param("mode", 0); size_t n = usym_param("n", 33); uint8_t *b = symbuf(n, "sec"); if (usym_param("b0", -1) >= 0 && n) b[0] = usym_param("b0", 0);
  // reference
  int st, comp = 1; size_t need = 33; uint8_t pt[64]; memset(pt, 0, 64);
  if (n == 0) st = PARSING_INCOMPLETE; else if (b[0] < 2 || b[0] > 4) { st = PARSING_FAILED; need = 1; } else { if (b[0] == 4) { need = 65; comp = 0; } st = n < need ? PARSING_INCOMPLETE : PARSING_DONE; }
  if (st == PARSING_DONE) { curve_point p; if (!refsec(b, &p)) st = PARSING_FAILED; else { bn_write_be(&p.x, pt); bn_write_be(&p.y, pt + 32); } }
  PublicKey p; size_t r = 0;
  if (usym_param("used", 0)) { uint8_t z[64]; memset(z, 3, 64); p = PublicKey(z, false); }
  if (mode == 0) r = p.parse(b, n); else if (mode == 1) { size_t c = pick("cut", 0, n); uint8_t *x = dup(b, c); r = p.parse(x, c); free(x); if (p.getStatus() == PARSING_INCOMPLETE) { x = dup(b + c, n - c); r += p.parse(x, n - c); free(x); } }
  else { for (size_t i = 0; i < n && (i == 0 || p.getStatus() == PARSING_INCOMPLETE); i++) { uint8_t *x = dup(b + i, 1); r += p.parse(x, 1); free(x); } if (n == 0) p.parse(b, 0); }
  ASSERT(p.getStatus() == st, "a public key is accepted exactly when it is a well formed point on the curve"); ASSERT(r == (n < need ? n : need), "bytes consumed");
  if (st == PARSING_DONE) { REACH("ok"); ASSERT(p.compressed == (bool)comp && eq(p.point, pt, 64), "point and flag"); ASSERT(p.isValid(), "valid"); ASSERT(p.length() == need, "length");
    uint8_t *o = filled(need, 0x5a); ASSERT(p.serialize(o, need) == need && eq(o, b, need), "serialization returns the parsed bytes"); uint8_t *o2 = filled(need, 0x5a); ASSERT(p.sec(o2, need) == need && eq(o2, b, need), "sec() too");
    ASSERT(p.isEven() == !(pt[63] & 1), "parity"); uint8_t x[32]; ASSERT(p.x(x, 32) == 32 && eq(x, pt, 32) && p.x(x, 31) == 0, "x coordinate");
    if (comp) { PublicKey q; q.from_x(pt, 32); ASSERT(q.getStatus() == PARSING_DONE && eq(q.point, pt, 32) && q.isEven(), "x-only key is the even point"); }
  } else { REACH(st == PARSING_FAILED ? "failed" : "incomplete"); ASSERT(!p.isValid(), "not valid"); }
}
extern "C" void h_sec_ctor() { // constructors from bytes
  int c = usym_param("comp", 1); size_t n = c ? 33 : 65; uint8_t *b = symbuf(n, "sec"); b[0] = c ? 2 + (b[0] & 1) : 4; curve_point p; int ok = refsec(b, &p);
  PublicKey a((const uint8_t *)b); ECPoint e((const uint8_t *)b); ASSERT(a.isValid() == ok && e.isValid() == ok, "valid exactly when on the curve");
  if (ok) { REACH("ok"); uint8_t pt[64]; bn_write_be(&p.x, pt); bn_write_be(&p.y, pt + 32); ASSERT(eq(a.point, pt, 64) && eq(e.point, pt, 64) && a.compressed == (bool)c && e.compressed == (bool)c, "point"); } else REACH("bad");
}
// ---- BIP32
static uint8_t depthof() { int d = usym_param("depth", -1); if (d >= 0) return d; uint8_t v = (uint8_t)usym_int("depth", 0, 255); if (d == -2) { ASSUME((v != 0) & (v != 1) & (v != 3) & (v != 255)); } return v; }
static ScriptType typeof_() { int t = usym_param("type", -1); return (ScriptType)(t >= 0 ? t : (int)pick("type", 0, (int)MULTISIG)); }
struct Hd { uint8_t k[32], pt[64], cc[32], fp[4], depth; uint32_t num; };
static HDPrivateKey hdkey(Hd &h, const Network *net, ScriptType ty) {
  uint8_t *k = key("secret"); memcpy(h.k, k, 32); usym_sym(h.cc, 32, "chaincode"); usym_sym(h.fp, 4, "parent"); h.num = (uint32_t)usym_int("childno", 0, 0xffffffff); h.depth = depthof();
  pubof(h.k, h.pt); return HDPrivateKey(h.k, h.cc, h.depth, h.fp, h.num, net, ty);
}
static void hmac512(const uint8_t *key, const uint8_t *msg, size_t n, uint8_t *out) { // HMAC with a 32-byte key from the plain hash
  uint8_t a[128 + 64], b[128 + 64], t[64]; memset(a, 0x36, 128); memset(b, 0x5c, 128); for (int i = 0; i < 32; i++) { a[i] ^= key[i]; b[i] ^= key[i]; } memcpy(a + 128, msg, n); sha512_Raw(a, 128 + n, t); memcpy(b + 128, t, 64); sha512_Raw(b, 192, out);
}
static ScriptType reftype(uint8_t depth, uint32_t idx, ScriptType t) {
  if (depth == 0) switch (idx) { case 0x8000002c: return P2PKH; case 0x80000031: return P2SH_P2WPKH; case 0x80000054: return P2WPKH; case 0x80000030: return MULTISIG; case 0x8000002d: return P2SH; }
  if (depth == 3 && t == MULTISIG) { if (idx == 0x80000001) return P2SH_P2WSH; if (idx == 0x80000002) return P2WSH; }
  return t;
}
static const Network *refnet(uint8_t depth, uint32_t idx, const Network *n) { if (depth == 1) { if (idx == 0x80000001) return &Testnet; if (idx == 0x80000000) return &Mainnet; } return n; }
extern "C" void h_ckd_priv() {
  Hd h; ScriptType ty = typeof_(); const Network *net = NET[usym_param("net", 0)]; HDPrivateKey p = hdkey(h, net, ty);
  int form = usym_param("form", 0), hard = usym_param("hard", 0); uint32_t low = (uint32_t)usym_int("index", 0, 0x7fffffff); static const uint32_t SP[] = {0, 1, 2, 44, 45, 48, 49, 84}; if (h.depth != 2) for (uint32_t v : SP) if (low == v) { low = v; break; }
  uint32_t idx = hard ? low + 0x80000000u : low;
  uint8_t sec[33], fp[20], data[37], I[64], ck[32], cp[64]; sec33(h.pt, sec); h160(sec, 33, fp);
  if (idx >= 0x80000000u) { data[0] = 0; memcpy(data + 1, h.k, 32); } else memcpy(data, sec, 33);
  for (int i = 0; i < 4; i++) data[33 + i] = idx >> (24 - 8 * i); hmac512(h.cc, data, 37, I);
  BI(264) n = N256(), s; ASSUME(inrange(I)); s = (BI(264))be(I) + be(h.k); if (s >= n) s -= n; tobe((u256)s, ck); ASSUME(s != 0); pubof(ck, cp);
  HDPrivateKey c = form == 0 ? p.child(idx) : form == 1 ? p.child(low, hard) : form == 2 ? p.hardenedChild(low) : p.derive(&idx, 1);
  uint8_t g[32]; c.getSecret(g); ASSERT(eq(g, ck, 32), "child secret = (left half + parent secret) mod n");
  ASSERT(eq(c.chainCode, I + 32, 32), "child chain code = right half"); ASSERT(eq(c.publicKey().point, cp, 64), "child public key"); ASSERT(eq(c.parentFingerprint, fp, 4), "parent fingerprint"); ASSERT(c.childNumber == idx, "child number"); ASSERT(c.depth == (uint8_t)(h.depth + 1), "depth");
  ASSERT(c.type == reftype(h.depth, idx, ty), "script type of the branch"); ASSERT(c.network == refnet(h.depth, idx, net), "network of the branch"); ASSERT(c.isValid(), "valid");
  p.getSecret(g); ASSERT(eq(g, h.k, 32) && eq(p.chainCode, h.cc, 32), "the parent is unchanged"); uint8_t f4[4]; p.fingerprint(f4); ASSERT(eq(f4, fp, 4), "fingerprint()"); REACH("ckd");
}
extern "C" void h_ckd_meta() { // type, network, depth and number of a child for every parent type, depth, network and index; one key
  uint8_t k[32], cc[32], fp[4] = {1, 2, 3, 4}; memset(k, 7, 32); memset(cc, 9, 32); uint8_t depth = (uint8_t)usym_int("depth", 0, 254); ScriptType ty = (ScriptType)usym_param("type", 0); const Network *net = NET[usym_param("net", 0)]; uint32_t idx = (uint32_t)usym_int("index", 0, 0xffffffff);
  if (!usym_param("pub", 0)) { HDPrivateKey p(k, cc, depth, fp, 77, net, ty); HDPrivateKey c = p.child(idx); ASSERT(c.type == reftype(depth, idx, ty), "script type of the branch"); ASSERT(c.network == refnet(depth, idx, net), "network of the branch"); ASSERT(c.depth == depth + 1 && c.childNumber == idx, "depth and number"); ASSERT(p.type == ty && p.network == net && p.depth == depth && p.childNumber == 77, "the parent is unchanged"); }
  else { idx &= 0x7fffffff; static uint8_t P[64]; if (!P[0]) pubof(k, P); HDPublicKey p(P, cc, depth, fp, 77, net, ty); HDPublicKey c = p.child(idx); ASSERT(c.type == ty && c.network == net, "type and network are inherited"); ASSERT(c.depth == depth + 1 && c.childNumber == idx, "depth and number"); ASSERT(p.type == ty && p.network == net && p.depth == depth && p.childNumber == 77, "the parent is unchanged"); }
  REACH("meta");
}
static HDPublicKey hdpub(Hd &h, const Network *net, ScriptType ty) {
  uint8_t *k = key("secret"); memcpy(h.k, k, 32); usym_sym(h.cc, 32, "chaincode"); usym_sym(h.fp, 4, "parent"); h.num = (uint32_t)usym_int("childno", 0, 0xffffffff); h.depth = depthof(); pubof(h.k, h.pt);
  return HDPublicKey(h.pt, h.cc, h.depth, h.fp, h.num, net, ty);
}
extern "C" void h_ckd_pub() {
  Hd h; ScriptType ty = typeof_(); const Network *net = NET[usym_param("net", 0)]; HDPublicKey p = hdpub(h, net, ty);
  uint32_t idx = (uint32_t)usym_int("index", 0, 0xffffffff); int form = usym_param("form", 0);
  HDPublicKey c;
  if (usym_param("hard", 0)) { ASSUME(idx >= 0x80000000u); c = form ? p.derive(&idx, 1) : p.child(idx); ASSERT(!c.isValid(), "a hardened child cannot be derived from a public key"); uint32_t two[2] = {idx, 1}; c = p.derive(two, 2); ASSERT(!c.isValid(), "nor anything below it"); REACH("hard"); return; }
  ASSUME(idx < 0x80000000u); uint8_t sec[33], fp[20], data[37], I[64], cp[64]; sec33(h.pt, sec); h160(sec, 33, fp);
  memcpy(data, sec, 33); for (int i = 0; i < 4; i++) data[33 + i] = idx >> (24 - 8 * i); hmac512(h.cc, data, 37, I); ASSUME(inrange(I));
  uint8_t ip[64]; pubof(I, ip); curve_point a, b; bn_read_be(ip, &a.x); bn_read_be(ip + 32, &a.y); bn_read_be(h.pt, &b.x); bn_read_be(h.pt + 32, &b.y); point_add(&secp256k1, &a, &b); bn_write_be(&b.x, cp); bn_write_be(&b.y, cp + 32);
  c = form ? p.derive(&idx, 1) : p.child(idx);
  ASSERT(eq(c.point, cp, 64), "child point = left half times G + parent point"); ASSERT(eq(c.chainCode, I + 32, 32), "child chain code = right half"); ASSERT(eq(c.parentFingerprint, fp, 4), "parent fingerprint"); ASSERT(c.childNumber == idx && c.depth == (uint8_t)(h.depth + 1) && c.compressed, "number and depth");
  ASSERT(c.type == ty && c.network == net, "type and network are inherited"); ASSERT(eq(p.point, h.pt, 64) && eq(p.chainCode, h.cc, 32), "the parent is unchanged"); uint8_t f4[4]; p.fingerprint(f4); ASSERT(eq(f4, fp, 4), "fingerprint()"); REACH("ckd");
}
extern "C" void h_neuter() { // xpub() of a private key
  Hd h; ScriptType ty = typeof_(); const Network *net = NET[usym_param("net", 0)]; HDPrivateKey p = hdkey(h, net, ty); HDPublicKey q = p.xpub();
  ASSERT(eq(q.point, h.pt, 64) && eq(q.chainCode, h.cc, 32) && eq(q.parentFingerprint, h.fp, 4) && q.childNumber == h.num && q.depth == h.depth && q.type == ty && q.network == net && q.compressed, "the public half carries the same point, chain code and metadata");
  char *a = (char *)filled(150, 0x5a), *b = (char *)filled(150, 0x5a); int l = p.xpub(a, 150), m = q.xpub(b, 150); ASSERT(l == m && l > 0 && eq(a, b, l), "both write the same xpub"); REACH("neuter");
}
extern "C" void h_master() { // BIP32 master key from a seed
  size_t n = usym_param("n", 64); uint8_t *seed = symbuf(n, "seed"); const Network *net = NET[usym_param("net", 0)];
  uint8_t in[128 + 128], o[192], t[64], I[64]; memset(in, 0x36, 128); memset(o, 0x5c, 128); const char *s = "Bitcoin seed"; for (int i = 0; i < 12; i++) { in[i] ^= s[i]; o[i] ^= s[i]; } memcpy(in + 128, seed, n); sha512_Raw(in, 128 + n, t); memcpy(o + 128, t, 64); sha512_Raw(o, 192, I);
  ASSUME(inrange(I)); HDPrivateKey p; p.fromSeed(seed, n, net); uint8_t g[32], pt[64]; p.getSecret(g); pubof(I, pt);
  ASSERT(eq(g, I, 32) && eq(p.chainCode, I + 32, 32), "secret and chain code are the halves of HMAC-SHA512(\"Bitcoin seed\", seed)"); ASSERT(eq(p.publicKey().point, pt, 64), "public key"); uint8_t z[4] = {0}; ASSERT(p.depth == 0 && p.childNumber == 0 && eq(p.parentFingerprint, z, 4) && p.network == net && p.type == UNKNOWN_TYPE, "metadata of a master key"); REACH("master");
}
// ---- extended key encoding
static const uint8_t *pfx(const Network *n, ScriptType t, int prv) {
  switch (t) { case P2WPKH: return prv ? n->zprv : n->zpub; case P2SH_P2WPKH: return prv ? n->yprv : n->ypub; case P2WSH: return prv ? n->Zprv : n->Zpub; case P2SH_P2WSH: return prv ? n->Yprv : n->Ypub; default: return prv ? n->xprv : n->xpub; }
}
static const uint32_t PRE[2][2][5] = {{{0x0488ade4, 0x049d7878, 0x04b2430c, 0x0295b005, 0x02aa7a99}, {0x04358394, 0x044a4e28, 0x045f18bc, 0x024285b5, 0x02575048}}, {{0x0488b21e, 0x049d7cb2, 0x04b24746, 0x0295b43f, 0x02aa7ed3}, {0x043587cf, 0x044a5262, 0x045f1cf6, 0x024289ef, 0x02575483}}};
static const ScriptType PTY[5] = {UNKNOWN_TYPE, P2SH_P2WPKH, P2WPKH, P2SH_P2WSH, P2WSH};
static void hdraw(const Hd &h, uint32_t pre, int pub, uint8_t *o) {
  for (int i = 0; i < 4; i++) { o[i] = pre >> (24 - 8 * i); o[9 + i] = h.num >> (24 - 8 * i); } o[4] = h.depth; memcpy(o + 5, h.fp, 4); memcpy(o + 13, h.cc, 32);
  if (pub) sec33(h.pt, o + 45); else { o[45] = 0; memcpy(o + 46, h.k, 32); }
}
extern "C" void h_xkey() { // write, then read back
  int t = usym_param("t", 0), net = usym_param("net", 0), pub = usym_param("pub", 0); Hd h; uint8_t *raw = exact(78);
  char *ref = (char *)filled(150, 0);
  if (!pub) {
    HDPrivateKey p = hdkey(h, NET[net], PTY[t]); hdraw(h, PRE[0][net > 0][t], 0, raw); toBase58Check(raw, 78, ref, 150); size_t l = strlen(ref);
    char *o = (char *)filled(150, 0x5a); ASSERT(p.xprv(o, 150) == (int)l && eq(o, ref, l + 1), "xprv text"); std::string s = p.toString(); 
    uint8_t *b = filled(78, 0x5a); ASSERT(p.serialize(b, 78) == 78 && eq(b, raw, 78) && p.length() == 78, "binary form");
    HDPrivateKey q((const char *)o); uint8_t g[32]; q.getSecret(g); ASSERT(q.isValid() && q.getStatus() == PARSING_DONE, "parses back"); ASSERT(eq(g, h.k, 32) && eq(q.chainCode, h.cc, 32) && eq(q.parentFingerprint, h.fp, 4) && q.childNumber == h.num && q.depth == h.depth && eq(q.publicKey().point, h.pt, 64), "the same key"); ASSERT(q.type == PTY[t] && q.network == (net ? &Testnet : &Mainnet), "type and network by prefix");
  } else {
    HDPublicKey p = hdpub(h, NET[net], PTY[t]); hdraw(h, PRE[1][net > 0][t], 1, raw); toBase58Check(raw, 78, ref, 150); size_t l = strlen(ref);
    char *o = (char *)filled(150, 0x5a); ASSERT(p.xpub(o, 150) == (int)l && eq(o, ref, l + 1), "xpub text");
    uint8_t *b = filled(78, 0x5a); ASSERT(p.serialize(b, 78) == 78 && eq(b, raw, 78) && p.length() == 78, "binary form");
    HDPublicKey q((const char *)o); ASSERT(q.isValid() && q.getStatus() == PARSING_DONE, "parses back"); ASSERT(eq(q.point, h.pt, 64) && eq(q.chainCode, h.cc, 32) && eq(q.parentFingerprint, h.fp, 4) && q.childNumber == h.num && q.depth == h.depth && q.compressed, "the same key"); ASSERT(q.type == PTY[t] && q.network == (net ? &Testnet : &Mainnet), "type and network by prefix");
  }
  REACH("xkey");
}
extern "C" void h_xkey_any() { // arbitrary payload, text form; only well formed ones give a key
  int pub = usym_param("pub", 0), t = usym_param("t", 0), net = usym_param("net", 0), what = usym_param("what", 0), cut = usym_param("cut", 0); size_t n = usym_param("n", 78);
  uint8_t *raw = exact(n > 78 ? n : 78); memset(raw, 0, n > 78 ? n : 78); Hd h; memset(&h, 0, sizeof h); uint8_t *k = key("secret"); memcpy(h.k, k, 32); pubof(h.k, h.pt); h.depth = 1; h.num = 5; hdraw(h, PRE[pub][net][t], pub, raw);
  int ok = n == 78;
  if (what == 1) { usym_sym(raw, 4, "prefix"); uint32_t v = (uint32_t)raw[0] << 24 | raw[1] << 16 | raw[2] << 8 | raw[3]; int f = 0; for (int a = 0; a < 2; a++) for (int b = 0; b < 5; b++) f |= v == PRE[pub][a][b]; ok &= f; }
  if (what == 2) { usym_sym(raw + 45, 1, "keyprefix"); ok &= pub ? 0 : raw[45] == 0; if (pub) { ASSUME((raw[45] != 2) & (raw[45] != 3)); } }
  if (what == 3) { usym_sym(raw + 46, 32, "keybody"); if (pub) { curve_point c; ok &= refsec(raw + 45, &c); } else ok &= inrange(raw + 46); }
  char *txt = (char *)filled(200, 0); uint8_t g[32];
  if (usym_param("bin", 0)) { uint8_t *b = dup(raw, n); size_t c = cut; if (pub) { HDPublicKey q; size_t r = q.parse(b, c); if (c < n && q.getStatus() == PARSING_INCOMPLETE) r += q.parse(b + c, n - c); ASSERT((q.getStatus() == PARSING_DONE && n >= 78) == (ok || (n > 78 && q.isValid())), "binary form accepted exactly when well formed"); if (ok) ASSERT(r == 78 && q.isValid() && eq(q.point, raw + 46, 32), "point"); if (n < 78) ASSERT(q.getStatus() != PARSING_DONE, "not done"); }
    else { HDPrivateKey q; size_t r = q.parse(b, c); if (c < n && q.getStatus() == PARSING_INCOMPLETE) r += q.parse(b + c, n - c); ASSERT((q.getStatus() == PARSING_DONE && n >= 78) == (ok || (n > 78 && q.isValid())), "binary form accepted exactly when well formed"); if (ok) { q.getSecret(g); ASSERT(r == 78 && eq(g, raw + 46, 32), "secret"); } if (n < 78) ASSERT(q.getStatus() != PARSING_DONE, "not done"); }
    REACH(ok ? "ok" : "bad"); return; }
  toBase58Check(raw, n, txt, 200);
  if (pub) { HDPublicKey q((const char *)txt); ASSERT(q.isValid() == ok, "an xpub is valid exactly when the text is well formed"); if (ok) ASSERT(eq(q.point, raw + 46, 32), "point"); }
  else { HDPrivateKey q((const char *)txt); ASSERT(q.isValid() == ok, "an xprv is valid exactly when the text is well formed"); q.getSecret(g); if (ok) ASSERT(eq(g, raw + 46, 32), "secret"); }
  REACH(ok ? "ok" : "bad");
}
// ---- derivation paths
static int refpath(const char *s, uint32_t *o, int pub) { // number of components, -1 if malformed
  size_t l = strlen(s); if (l && s[0] == 'm') { s++; l--; if (l) { if (s[0] != '/') return -1; s++; l--; } }
  int n = 0; if (l == 0) return 0; if (s[l - 1] == '/') { l--; if (l == 0) return -1; }
  size_t i = 0; for (;;) { uint64_t v = 0; size_t d = 0; while (i < l && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); if (v >= 0x80000000u) return -1; i++; d++; } if (!d) return -1;
    if (!pub && i < l && (s[i] == 'h' || s[i] == '\'')) { v += 0x80000000u; i++; } o[n++] = (uint32_t)v; if (i == l) return n; if (s[i] != '/') return -1; i++; }
}
static uint32_t seen[20]; static int nseen;
// the derivation itself is replaced by a recorder: what matters here is which indices are derived, in which order
extern "C" void rec_prv(HDPrivateKey *out, const HDPrivateKey *self, uint32_t index, bool hardened) { if (nseen < 20) seen[nseen++] = hardened && index < 0x80000000u ? index + 0x80000000u : index; new (out) HDPrivateKey(*self); }
extern "C" void rec_pub(HDPublicKey *out, const HDPublicKey *self, uint32_t index) { if (nseen < 20) seen[nseen++] = index; new (out) HDPublicKey(*self); }
static const char *PATHS[] = {"", "m", "m/", "m/0", "0", "0/", "m/1/2", "44h/0'/5", "m/2147483647h", "2147483647/", "m/2147483648", "4294967295", "4294967296", "4294967297h", "m//", "m//1", "1//2", "/1", "/", "m/1h2", "1hh", "h", "m/h", "mm/1", "m1", "1/m", "m/-1", " 1", "1 ", "m/1/2/3/4/5/6/7/8/", "00000000001", "99999999999", "21474836480", "m/0h/1h/2h/3/4", "m/1'/x", "0/1/2/3/4/5/6/7/8/9/10/11/12", "m/7h/6h/5h/4h/3h/2h/1h/0h/9/8/7/6/5/4/3", "0/1/2/3/4/5/6/7/8/9/10/11/12/x"};
extern "C" void h_path() {
  usym_merge(usym_param("merge", 0)); int pub = usym_param("pub", 0); size_t n = usym_param("n", 3); char *s; nseen = 0;
  if (usym_param("fix", 0)) { const char *c = PATHS[pick("which", 0, sizeof(PATHS) / sizeof(*PATHS) - 1)]; s = (char *)dup(c, strlen(c) + 1); }
  else { s = (char *)exact(n + 1); s[n] = 0; usym_sym(s, n, "path"); for (size_t i = 0; i < n; i++) ASSUME(s[i] != 0); }
  uint32_t e[20]; int k = refpath(s, e, pub); uint8_t kk[32], cc[32], pt[64]; memset(kk, 7, 32); memset(cc, 9, 32);
  int valid, same = 0, plain = 0; // plain: native replay with the real derivation instead of the recorder
  if (!pub) { HDPrivateKey p(kk, cc); HDPrivateKey c = p.derive((const char *)s); valid = c.isValid(); plain = usym_replaying() && nseen == 0; if (plain && k >= 0) same = c.xprv() == p.derive(e, k).xprv(); }
  else { static uint8_t P[64]; if (!P[0]) pubof(kk, P); HDPublicKey p(P, cc); HDPublicKey c = p.derive((const char *)s); uint8_t z[64] = {0}; valid = !eq(c.point, z, 64); plain = usym_replaying() && nseen == 0; if (plain && k >= 0) same = c.xpub() == p.derive(e, k).xpub(); }
  ASSERT(valid == (k >= 0), "a path yields a key exactly when it is well formed");
  if (k >= 0) { REACH("ok"); ASSERT(plain ? same : nseen == k && eq(seen, e, 4 * k), "the indices written in the path are derived in order"); } else { REACH("bad"); ASSERT(nseen == 0, "nothing is derived for a malformed path"); }
}
extern "C" void h_steps() { // arrays of indices
  size_t n = usym_param("n", 3); int pub = usym_param("pub", 0); uint32_t *e = (uint32_t *)exact(4 * n); usym_sym(e, 4 * n, "index"); if (pub) for (size_t i = 0; i < n; i++) e[i] &= 0x7fffffff; nseen = 0; uint8_t kk[32], cc[32]; memset(kk, 7, 32); memset(cc, 9, 32); int same = 1;
  if (!pub) { HDPrivateKey p(kk, cc), c = p.derive(e, n); if (usym_replaying() && nseen == 0) { for (size_t i = 0; i < n; i++) p = p.child(e[i]); same = p.xprv() == c.xprv(); } else same = nseen == (int)n && eq(seen, e, 4 * n); }
  else { static uint8_t P[64]; if (!P[0]) pubof(kk, P); HDPublicKey p(P, cc), c = p.derive(e, n); if (usym_replaying() && nseen == 0) { for (size_t i = 0; i < n; i++) p = p.child(e[i]); same = p.xpub() == c.xpub(); } else same = nseen == (int)n && eq(seen, e, 4 * n); }
  ASSERT(same, "every index is derived in order"); REACH("steps");
}
