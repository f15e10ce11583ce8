// Scripts, addresses, script templates.
#include "h.h"
#include "Bitcoin.h"
#include "Conversion.h"
#include "Hash.h"
#include "OpCodes.h"
extern "C" {
#include "utility/segwit_addr.h"
#include "utility/trezor/sha2.h"
#include "utility/trezor/ripemd160.h"
size_t stub_toBase58Check(const uint8_t *, size_t, char *, size_t);
int stub_segwit_addr_encode(char *, const char *, int, const uint8_t *, size_t);
}
struct Net { const Network *n; uint8_t pkh, sh; const char *hrp; };
static const Net NETS[] = {{&Mainnet, 0x00, 0x05, "bc"}, {&Testnet, 0x6f, 0xc4, "tb"}, {&Regtest, 0x6f, 0xc4, "bcrt"}, {&Signet, 0x6f, 0xc4, "tb"}};
static void h160(const uint8_t *p, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(p, n, t); ripemd160(t, 32, o); }
// reference: script type and address text
static ScriptType reftype(const uint8_t *s, size_t n) {
  if (n == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac) return P2PKH;
  if (n == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87) return P2SH;
  if (n == 22 && s[0] == 0 && s[1] == 20) return P2WPKH;
  if (n == 34 && s[0] == 0 && s[1] == 32) return P2WSH;
  return UNKNOWN_TYPE;
}
static void mkb58(uint8_t pre, const uint8_t *h, char *o) { uint8_t p[21]; p[0] = pre; memcpy(p + 1, h, 20); memset(o, 0, 100); toBase58Check(p, 21, o, 100); }
static void mkseg(const char *hrp, int ver, const uint8_t *p, size_t n, char *o) { memset(o, 0, 100); segwit_addr_encode(o, hrp, ver, p, n); }
static int refaddr(const uint8_t *s, size_t n, const Net &t, char *o) {
  switch (reftype(s, n)) {
  case P2PKH: mkb58(t.pkh, s + 3, o); return 1;
  case P2SH: mkb58(t.sh, s + 2, o); return 1;
  case P2WPKH: mkseg(t.hrp, 0, s + 2, 20, o); return 1;
  case P2WSH: mkseg(t.hrp, 0, s + 2, 32, o); return 1;
  default: memset(o, 0, 100); return 0;
  }
}
static int is(const Script &s, const uint8_t *e, size_t n) { return s.scriptLen == n && (n == 0 || eq(s.scriptArray, e, n)); }
static uint8_t *tmpl(int kind, size_t *n) { // a standard script with arbitrary hash
  static const uint8_t L[] = {25, 23, 22, 34}, P[] = {3, 2, 2, 2}, H[] = {20, 20, 20, 32};
  uint8_t *s = exact(L[kind]); memset(s, 0, L[kind]); *n = L[kind];
  if (kind == 0) { s[0] = 0x76; s[1] = 0xa9; s[2] = 20; s[23] = 0x88; s[24] = 0xac; } else if (kind == 1) { s[0] = 0xa9; s[1] = 20; s[22] = 0x87; } else { s[1] = H[kind]; }
  if (usym_param("conc", 0)) { for (int i = 0; i < H[kind]; i++) s[P[kind] + i] = i * 29 + 5; if (usym_param("conc", 0) == 2) usym_sym(s + P[kind] + H[kind] - 1, 1, "last"); } else usym_sym(s + P[kind], H[kind], "hash");
  return s;
}
// script -> address -> script
extern "C" void h_script_addr() {
  usym_merge(usym_param("merge", 0)); if (usym_param("conc", 0)) usym_linear(1);
  size_t n; uint8_t *s = tmpl(usym_param("kind", 0), &n); const Net &t = NETS[usym_param("net", 0)];
  char *e = (char *)exact(100); refaddr(s, n, t, e); size_t l = strlen(e);
  Script sc(s, n);
  size_t cap = pick("cap", 0, 3); cap = cap == 0 ? l : cap == 1 ? l - 1 : cap == 2 ? l + 1 : 100;
  char *o = (char *)filled(cap, 0x5a); size_t r = sc.address(o, cap, t.n);
  if (cap < l) { REACH("small"); ASSERT(r == 0, "an address that does not fit is refused"); return; }
  ASSERT(r == l && eq(o, e, l), "the address is the one of the script on that network"); if (cap > l) ASSERT(o[l] == 0, "terminated");
  std::string as = sc.address(t.n); ASSERT(as.size() == l && eq(as.data(), e, l), "string form alike");
  Script back(e); ASSERT(is(back, s, n), "the address parses back to the script");
  TxOut out(1000, e); ASSERT(is(out.scriptPubkey, s, n) && out.amount == 1000, "an output to the address carries the script"); REACH("addr");
}
// any script: type and address only when it is a standard script
extern "C" void h_script_any() {
  usym_merge(1);
  size_t n = usym_param("n", 22); uint8_t *s = symbuf(n, "script"); const Net &t = NETS[usym_param("net", 0)];
  // a base58/bech32 body is irrelevant here: only the template bytes are arbitrary
  size_t from = n == 25 ? 3 : 2; for (size_t i = from; i < from + (n == 34 ? 32 : 20) && i < n; i++) s[i] = i;
  Script sc(s, n); ScriptType y = reftype(s, n);
  ASSERT(sc.type() == y, "the type of a script is the one its bytes denote");
  char *o = (char *)filled(100, 0x5a), *e = (char *)exact(100); int std = refaddr(s, n, t, e);
  size_t r = sc.address(o, 100, t.n);
  ASSERT((r != 0) == std && eq(o, e, std ? strlen(e) : 0), "only standard scripts have an address"); REACH(std ? "std" : "other");
}
// payload of a valid base58 address: prefix and length decide the script
extern "C" void h_addr_b58() {
  usym_merge(0);
  size_t n = usym_param("n", 21); uint8_t *p = symbuf(n, "payload"); char *t = (char *)exact(140); memset(t, 0, 140); toBase58Check(p, n, t, 140);
  Script sc(t); uint8_t *e = exact(25); size_t l = 0;
  if (n == 21 && (p[0] == 0 || p[0] == 0x6f)) { REACH("pkh"); l = 25; e[0] = 0x76; e[1] = 0xa9; e[2] = 20; memcpy(e + 3, p + 1, 20); e[23] = 0x88; e[24] = 0xac; }
  else if (n == 21 && (p[0] == 5 || p[0] == 0xc4)) { REACH("sh"); l = 23; e[0] = 0xa9; e[1] = 20; memcpy(e + 2, p + 1, 20); e[22] = 0x87; }
  else REACH("none");
  ASSERT(is(sc, e, l), "the script is the one the address denotes, or empty");
}
extern "C" void h_addr_segwit() {
  size_t n = usym_param("n", 20); int ver = (int)pick("ver", 0, 16); const Net &net = NETS[usym_param("net", 0)]; if (ver == 0 && n != 20 && n != 32) usym_kill();
  uint8_t *p = symbuf(n, "prog"); char *t = (char *)exact(100); mkseg(net.hrp, ver, p, n, t);
  Script sc(t); uint8_t *e = exact(42); e[0] = ver ? 0x50 + ver : 0; e[1] = n; memcpy(e + 2, p, n);
  ASSERT(is(sc, e, n + 2), "a segwit address denotes version opcode and program push");
  t[strlen(t) - 1] ^= usym_param("flip", 0); REACH("seg");
}
// arbitrary text never yields a script that is not the one denoted, and never reads outside
extern "C" void h_addr_text() {
  usym_merge(1);
  size_t n = usym_param("n", 4); char *t = (char *)exact(n + 1); t[n] = 0;
  if (usym_param("long", 0)) memset(t, usym_param("long", 0), n); else { usym_sym(t, n, "text"); for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); }
  Script sc(t); ASSERT(sc.scriptLen == 0, "text that is no address gives an empty script"); REACH("text");
}
// addresses of public keys
extern "C" void h_pub_addr() {
  usym_merge(0);
  uint8_t *pt = symbuf(64, "point"); int c = usym_param("comp", 1); const Net &t = NETS[usym_param("net", 0)]; PublicKey pub(pt, c);
  uint8_t sec[65]; if (c) { sec[0] = 2 + (pt[63] & 1); memcpy(sec + 1, pt, 32); } else { sec[0] = 4; memcpy(sec + 1, pt, 64); }
  uint8_t h[20], rs[22], hs[20]; h160(sec, c ? 33 : 65, h); rs[0] = 0; rs[1] = 20; memcpy(rs + 2, h, 20); h160(rs, 22, hs);
  char *e = (char *)exact(100), *o = (char *)filled(100, 0x5a);
  mkb58(t.pkh, h, e); int l = pub.legacyAddress(o, 100, t.n); ASSERT(l == (int)strlen(e) && eq(o, e, l + 1), "legacy address");
  std::string a = pub.legacyAddress(t.n), b = pub.address(t.n); ASSERT(a.size() == l && eq(a.data(), e, l) && b.size() == l && eq(b.data(), e, l), "legacy address (string)");
  mkb58(t.sh, hs, e); memset(o, 0x5a, 100); l = pub.nestedSegwitAddress(o, 100, t.n); ASSERT(l == (int)strlen(e) && eq(o, e, l + 1), "nested segwit address");
  a = pub.nestedSegwitAddress(t.n); ASSERT(a.size() == l && eq(a.data(), e, l), "nested segwit address (string)");
  mkseg(t.hrp, 0, h, 20, e); memset(o, 0x5a, 100); l = pub.segwitAddress(o, 100, t.n); size_t n = strlen(e); ASSERT(l > 0 && eq(o, e, n + 1), "segwit address");
  a = pub.segwitAddress(t.n); ASSERT(a.size() == n && eq(a.data(), e, n), "segwit address (string)");
  char small[20]; ASSERT(pub.segwitAddress(small, 20, t.n) == 0 && pub.legacyAddress(small, 20, t.n) == 0 && pub.nestedSegwitAddress(small, 20, t.n) == 0, "an address that does not fit is refused");
  REACH("pub");
}
// --- templates and pushes
extern "C" void h_templates() {
  usym_merge(0);
  uint8_t *pt = symbuf(64, "point"); int c = usym_param("comp", 1); PublicKey pub(pt, c);
  uint8_t sec[65]; if (c) { sec[0] = 2 + (pt[63] & 1); memcpy(sec + 1, pt, 32); } else { sec[0] = 4; memcpy(sec + 1, pt, 64); }
  uint8_t h[32], e[40]; h160(sec, c ? 33 : 65, h);
  e[0] = 0x76; e[1] = 0xa9; e[2] = 20; memcpy(e + 3, h, 20); e[23] = 0x88; e[24] = 0xac;
  ASSERT(is(pkh(pub), e, 25) && is(Script(pub), e, 25) && is(Script(pub, P2PKH), e, 25) && is(pub.script(), e, 25), "P2PKH script of a key");
  e[0] = 0; e[1] = 20; memcpy(e + 2, h, 20);
  ASSERT(is(wpkh(pub), e, 22) && is(Script(pub, P2WPKH), e, 22) && is(pub.script(P2WPKH), e, 22), "P2WPKH script of a key");
  size_t n = usym_param("n", 5); uint8_t *s = symbuf(n, "script"); Script sc(s, n);
  h160(s, n, h); e[0] = 0xa9; e[1] = 20; memcpy(e + 2, h, 20); e[22] = 0x87;
  ASSERT(is(sh(sc), e, 23) && is(Script(sc, P2SH), e, 23) && is(sc.scriptPubkey(), e, 23) && is(sc.scriptPubkey(P2SH), e, 23), "P2SH script of a script");
  sha256_Raw(s, n, h); e[0] = 0; e[1] = 32; memcpy(e + 2, h, 32);
  ASSERT(is(wsh(sc), e, 34) && is(Script(sc, P2WSH), e, 34) && is(sc.scriptPubkey(P2WSH), e, 34), "P2WSH script of a script");
  ASSERT(is(sc, s, n), "the script itself is unchanged"); REACH("templates");
}
static int cmpsec(const uint8_t *a, const uint8_t *b) { return memcmp(a, b, 65); }
extern "C" void h_multi() {
  usym_merge(0);
  int k = usym_param("k", 2), c = usym_param("comp", 1), sorted = usym_param("sorted", 0), m = (int)pick("m", 0, k + 1), sl = c ? 33 : 65;
  PublicKey *pk = new PublicKey[k + 1]; uint8_t(*secs)[65] = (uint8_t(*)[65])exact(65 * (k + 1)); memset(secs, 0, 65 * (k + 1));
  for (int i = 0; i < k; i++) { uint8_t p[64]; memset(p, i + 1, 64); usym_sym(p + 1, 1, "x"); usym_sym(p + 63, 1, "y"); if (usym_param("full", 0)) usym_sym(p, 64, "pt"); if (sorted) p[0] = 7; pk[i] = PublicKey(p, c); if (c) { secs[i][0] = 2 + (p[63] & 1); memcpy(secs[i] + 1, p, 32); } else { secs[i][0] = 4; memcpy(secs[i] + 1, p, 64); } }
  uint8_t *keep = exact(64 * k); for (int i = 0; i < k; i++) memcpy(keep + i * 64, pk[i].point, 64);
  Script s = sorted ? sortedmulti(m, pk, k) : multi(m, pk, k);
  for (int i = 0; i < k; i++) ASSERT(eq(keep + i * 64, pk[i].point, 64), "the caller's keys are untouched");
  if (m == 0 || m > k || k == 0 || k > 16) { REACH("bad"); ASSERT(s.scriptLen == 0, "an impossible threshold gives an empty script"); return; }
  if (sorted) for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (cmpsec(secs[j], secs[i]) < 0) { uint8_t t[65]; memcpy(t, secs[i], 65); memcpy(secs[i], secs[j], 65); memcpy(secs[j], t, 65); }
  uint8_t *e = exact(3 + k * (sl + 1)); size_t l = 0; e[l++] = 0x50 + m;
  for (int i = 0; i < k; i++) { e[l++] = sl; memcpy(e + l, secs[i], sl); l += sl; }
  e[l++] = 0x50 + k; e[l++] = 0xae;
  ASSERT(is(s, e, l), sorted ? "multisig script with the keys in ascending order" : "multisig script with the keys in the given order"); REACH("multi");
}
// pushes append exactly the bytes described
extern "C" void h_push() {
  usym_merge(0);
  size_t a = usym_param("a", 3), n = usym_param("n", 5); int op = usym_param("op", 0); uint8_t *pre = symbuf(a, "pre"), *d = symbuf(n, "data"); Script s(pre, a); size_t r; uint8_t *e = exact(a + n + 80); memcpy(e, pre, a); size_t l = a;
  if (op == 0) { uint8_t c; usym_sym(&c, 1, "code"); r = s.push(c); e[l++] = c; }
  else if (op == 1) { r = s.push(d, n); memcpy(e + l, d, n); l += n; }
  else if (op == 2) { Script t(d, n); r = s.push(t); if (n > 255) { e[l++] = 0x4d; e[l++] = n; e[l++] = n >> 8; } else { if (n > 75) e[l++] = 0x4c; e[l++] = n; } memcpy(e + l, d, n); l += n; }
  else if (op == 3) { uint8_t *p = symbuf(64, "point"); int c = pick("comp", 0, 1); r = s.push(PublicKey(p, c)); e[l++] = c ? 33 : 65; e[l++] = c ? 2 + (p[63] & 1) : 4; memcpy(e + l, p, c ? 32 : 64); l += c ? 32 : 64; }
  else { uint8_t q[64]; memset(q, 0x41, 64); usym_sym(q, 1, "r0"); usym_sym(q + 32, 1, "s0"); Signature sig(q, q + 32); int ty = pick("type", 1, 3); r = s.push(sig, (SigHashType)ty);
    uint8_t der[80]; size_t dl = 0; der[dl++] = 0x30; der[dl++] = 0; for (int k = 0; k < 2; k++) { const uint8_t *v = q + 32 * k; size_t z = 0; while (z < 32 && !v[z]) z++; int hi = v[z] >> 7; der[dl++] = 2; der[dl++] = 32 - z + hi; if (hi) der[dl++] = 0; memcpy(der + dl, v + z, 32 - z); dl += 32 - z; } der[1] = dl - 2;
    e[l++] = dl + 1; memcpy(e + l, der, dl); l += dl; e[l++] = ty; }
  ASSERT(r == s.scriptLen, "the returned length is the script's"); ASSERT(is(s, e, l), "exactly the pushed item is appended"); ASSERT(s.length() == l + (l < 0xfd ? 1 : l < 0x10000 ? 3 : 5), "length counts the varint"); REACH("push");
}
// scripts never grow beyond the limit
extern "C" void h_push_limit() {
  size_t n = usym_param("n", 9999), k = usym_param("k", 1); uint8_t *big = filled(n + k, 0x51); Script s(big, n); size_t r = usym_param("op", 0) ? s.push(big, k) : s.push((uint8_t)0x52);
  size_t t = n + (usym_param("op", 0) ? k : 1); if (t > 10000) ASSERT(r == 0 && s.scriptLen == 0, "a script beyond 10000 bytes is dropped"); else ASSERT(r == t && s.scriptLen == t, "up to 10000 bytes are kept"); REACH("limit");
}
// private and HD keys report the addresses of their public key, on their network, HD keys by their type
extern "C" void h_key_addr() {
  usym_merge(0); const Net &t = NETS[usym_param("net", 0)]; int kind = usym_param("kind", 0), type = usym_param("type", 0), comp = usym_param("comp", 1); char *e = (char *)filled(100, 0x11), *o = (char *)filled(100, 0x5a); std::string a;
  uint8_t *s = symbuf(64, "key"), *cc = symbuf(32, "chain");
  auto same = [&](int l, int m, const std::string &str, const std::string &str0, const char *what) { ASSERT(l == m && eq(o, e, 100), what); ASSERT(str.size() == str0.size() && eq(str.data(), str0.data(), str.size()), what); };
  if (kind == 0) { ASSUME((s[0] | s[31]) != 0 && s[0] < 0xff); PrivateKey k(s, comp, t.n); PublicKey p = k.publicKey();
    int l = k.legacyAddress(o, 100), m = p.legacyAddress(e, 100, t.n); same(l, m, k.legacyAddress(), p.legacyAddress(t.n), "legacy address of a private key");
    l = k.segwitAddress(o, 100), m = p.segwitAddress(e, 100, t.n); same(l, m, k.segwitAddress(), p.segwitAddress(t.n), "segwit address of a private key");
    l = k.nestedSegwitAddress(o, 100), m = p.nestedSegwitAddress(e, 100, t.n); same(l, m, k.nestedSegwitAddress(), p.nestedSegwitAddress(t.n), "nested segwit address of a private key");
    l = k.address(o, 100), m = p.legacyAddress(e, 100, t.n); same(l, m, k.address(), p.legacyAddress(t.n), "address of a private key");
    l = p.address(o, 100, t.n); same(l, m, p.address(t.n), p.legacyAddress(t.n), "address of a public key"); }
  else { PublicKey p; HDPrivateKey hk; HDPublicKey hp; if (kind == 1) { ASSUME((s[0] | s[31]) != 0 && s[0] < 0xff); hk = HDPrivateKey(s, cc, 1, NULL, 0, t.n, (ScriptType)type); p = hk.publicKey(); } else { hp = HDPublicKey(s, cc, 1, NULL, 0, t.n, (ScriptType)type); p = PublicKey(s, true); }
    int l = kind == 1 ? hk.address(o, 100) : hp.address(o, 100), m = type == P2PKH ? p.legacyAddress(e, 100, t.n) : type == P2SH_P2WPKH ? p.nestedSegwitAddress(e, 100, t.n) : p.segwitAddress(e, 100, t.n);
    same(l, m, kind == 1 ? hk.address() : hp.address(), type == P2PKH ? p.legacyAddress(t.n) : type == P2SH_P2WPKH ? p.nestedSegwitAddress(t.n) : p.segwitAddress(t.n), "address of an HD key"); }
  REACH("keyaddr");
}
