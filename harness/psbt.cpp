// Partially signed transactions: parsing, serialization, signing, fee and ownership.
#include "tx.cpp"
#include "PSBT.h"
static int refsec(const uint8_t *b, size_t n, uint8_t *pt) { // SEC bytes to a point (the two field computations are the code's own)
  curve_point p; if (n != (b[0] == 4 ? 65u : 33u)) return 0; bn_read_be(b + 1, &p.x); if (b[0] == 4) bn_read_be(b + 33, &p.y); else if (b[0] == 2 || b[0] == 3) uncompress_coords(&secp256k1, b[0], &p.x, &p.y); else return 0;
  if (!ecdsa_validate_pubkey(&secp256k1, &p)) return 0; bn_write_be(&p.x, pt); bn_write_be(&p.y, pt + 32); return 1;
}
// ---------------------------------------------------------------- reference model
struct TxR { size_t n, oe, lock, ni, no, prev[5], out[5], oute[5]; int sw, sf; };
static int rtx2(const uint8_t *b, size_t n, TxR &t) { // whole buffer, with offsets
  memset(&t, 0, sizeof t); Rd r = {b, n, 0, 0}; rbytes(r, 4); if (r.st || r.p >= n) return 0; int c = b[r.p++]; if (c == 0) { if (r.p + 1 >= n || b[r.p++] != 1) return 0; t.sw = 1; c = b[r.p++]; }
  long mc = usym_param("maxcount", 4); ASSUME((c <= mc) | (c >= 0xfd)); if (c >= 0xfd) return 0; t.ni = c; for (int i = 0; i < c && !r.st; i++) { t.prev[i] = r.p; rtxin(r); }
  if (r.st || r.p >= n) return 0; int o = b[r.p++]; ASSUME((o <= mc) | (o >= 0xfd)); if (o >= 0xfd) return 0; t.no = o; for (int i = 0; i < o && !r.st; i++) { t.out[i] = r.p; rtxout(r); t.oute[i] = r.p; }
  t.oe = r.p; if (t.sw) { t.sf = 1; for (int i = 0; i < c && !r.st; i++) { if (r.p < n && b[r.p] != 0) t.sf = 0; rwitness(r); } } t.lock = r.p; rbytes(r, 4); t.n = r.p; return !r.st && r.p == n;
}
struct Der { const uint8_t *sec; size_t secn; uint8_t pt[64]; const uint8_t *val; size_t steps; };
struct Sig { const uint8_t *sec; size_t secn; uint8_t pt[64]; const uint8_t *val; size_t n; };
struct In { const uint8_t *utxo; size_t utxon; const uint8_t *rs, *ws; size_t rn, wn; int hasr, hasw; Der d[6]; int nd; Sig s[6]; int ns; };
static struct Model { const uint8_t *tx; size_t txn; TxR t; In in[5]; In out[5]; } M;
static int rder_ok(const uint8_t *b, size_t n) { Rd r = {b, n, 0, 0}; rder(r); return !r.st && r.p == n; }
static int radd(size_t sec, const uint8_t *k, size_t kn, const uint8_t *v, size_t vn) { // one pair; 0 if it is not valid
  if (sec == 0) return 1; int isin = sec <= M.t.ni; In &e = isin ? M.in[sec - 1] : M.out[sec - 1 - M.t.ni]; int ty = isin ? k[0] : k[0] == 0 ? 4 : k[0] == 1 ? 5 : k[0] == 2 ? 6 : 99; uint8_t pt[64];
  switch (ty) {
    case 0: { TxR t; if (kn != 1 || !rtx2(v, vn, t)) return 0; uint8_t *l = exact(vn), h[32]; memcpy(l, v, 4); size_t q = 4, st = t.sw ? 6 : 4; memcpy(l + q, v + st, t.oe - st); q += t.oe - st; memcpy(l + q, v + t.lock, 4); q += 4; dsha(l, q, h); free(l);
      const uint8_t *po = M.tx + M.t.prev[sec - 1]; if (!eq(h, po, 32)) return 0; uint64_t ix = le(po + 32, 4); if (ix >= t.no) return 0; ix = usym_concretize(ix); e.utxo = v + t.out[ix]; e.utxon = t.oute[ix] - t.out[ix]; return 1; }
    case 1: { if (kn != 1) return 0; Rd r = {v, vn, 0, 0}; rtxout(r); if (r.st || r.p != vn) return 0; e.utxo = v; e.utxon = vn; return 1; }
    case 2: { if (kn != 34 && kn != 66) return 0; if (!refsec(k + 1, kn - 1, pt)) return 0; if (vn < 1 || !rder_ok(v, vn - 1)) return 0; int i = 0; for (; i < e.ns; i++) if (e.s[i].secn == kn - 1 && eq(e.s[i].pt, pt, 64)) break; if (i == e.ns) { e.ns++; } e.s[i].sec = k + 1; e.s[i].secn = kn - 1; memcpy(e.s[i].pt, pt, 64); e.s[i].val = v; e.s[i].n = vn; return 1; }
    case 4: if (kn != 1) return 0; e.rs = v; e.rn = vn; e.hasr = 1; return 1;
    case 5: if (kn != 1) return 0; e.ws = v; e.wn = vn; e.hasw = 1; return 1;
    case 6: { if (kn != 34 && kn != 66) return 0; if (vn < 4 || vn % 4 || vn / 4 > 256) return 0; if (!refsec(k + 1, kn - 1, pt)) return 0; Der &d = e.d[e.nd++]; d.sec = k + 1; d.secn = kn - 1; memcpy(d.pt, pt, 64); d.val = v; d.steps = vn / 4 - 1; return 1; }
  }
  return 1; // unknown or unused pairs are skipped
}
static void rpsbt(Rd &r) {
  memset(&M, 0, sizeof M); static const uint8_t mg[5] = {0x70, 0x73, 0x62, 0x74, 0xff}; superfluous = 0;
  for (int i = 0; i < 5; i++) { if (r.p >= r.n) { r.st = INC; return; } if (r.b[r.p++] != mg[i]) { r.st = FAIL; return; } }
  size_t sec = 0; for (;;) {
    uint64_t kn = rvar(r); const uint8_t *k = rbytes(r, kn); if (r.st) return;
    if (kn == 0) { if (!M.tx) { r.st = FAIL; return; } if (++sec == 1 + M.t.ni + M.t.no) return; continue; }
    uint64_t vn = rvar(r); const uint8_t *v = rbytes(r, vn); if (r.st) return;
    if (!M.tx) { if (kn != 1 || k[0] != 0 || !rtx2(v, vn, M.t)) { r.st = FAIL; return; } M.tx = v; M.txn = vn; superfluous = M.t.sf; }
    else if (!radd(sec, k, kn, v, vn)) { r.st = FAIL; return; }
  }
}
static void cmpder(const PSBTDerivation *d, int n, const In &e) {
  for (int i = 0; i < e.nd && i < n; i++) { ASSERT(eq(d[i].pubkey.point, e.d[i].pt, 64) && d[i].pubkey.compressed == (e.d[i].secn == 33), "public key of the derivation"); ASSERT(eq(d[i].fingerprint, e.d[i].val, 4), "fingerprint"); ASSERT(d[i].derivationLen == e.d[i].steps, "number of steps"); for (size_t j = 0; j < e.d[i].steps; j++) ASSERT(d[i].derivation[j] == le(e.d[i].val + 4 + 4 * j, 4), "derivation path"); }
}
static size_t expect(uint8_t *o) { // serialization: magic, transaction and partial signatures
  static const uint8_t pre[7] = {0x70, 0x73, 0x62, 0x74, 0xff, 1, 0}; memcpy(o, pre, 7); size_t p = 7 + vput(o + 7, M.txn); memcpy(o + p, M.tx, M.txn); p += M.txn; o[p++] = 0;
  for (size_t i = 0; i < M.t.ni; i++) { for (int j = 0; j < M.in[i].ns; j++) { Sig &s = M.in[i].s[j]; o[p++] = 1 + s.secn; o[p++] = 2; memcpy(o + p, s.sec, s.secn); p += s.secn; o[p++] = s.n; memcpy(o + p, s.val, s.n); p += s.n; } o[p++] = 0; }
  for (size_t i = 0; i < M.t.no; i++) o[p++] = 0; return p;
}
static void sameas(const PSBT &t, int ser) { // the object is the model
  ASSERT(t.tx.inputsNumber == M.t.ni && t.tx.outputsNumber == M.t.no, "counts"); if (!M.t.sf) outeq(t.tx, M.tx, M.txn);
  for (size_t i = 0; i < M.t.ni; i++) { const PSBTInputMetadata &a = t.txInsMeta[i]; const In &e = M.in[i];
    if (e.utxo) outeq(a.txOut, e.utxo, e.utxon); else ASSERT(a.txOut.amount == 0 && a.txOut.scriptPubkey.scriptLen == 0, "no output known"); ASSERT(sis(a.redeemScript, e.rs, e.rn) && sis(a.witnessScript, e.ws, e.wn), "scripts of the input");
    ASSERT(a.derivationsLen == e.nd && a.signaturesLen == e.ns, "number of derivations and signatures"); cmpder(a.derivations, a.derivationsLen, e);
    for (int j = 0; j < e.ns && j < a.signaturesLen; j++) { ASSERT(eq(a.signatures[j].pubkey.point, e.s[j].pt, 64) && a.signatures[j].pubkey.compressed == (e.s[j].secn == 33), "public key of the signature"); uint8_t o[80]; size_t l = a.signatures[j].signature.serialize(o, 80); ASSERT(l == e.s[j].n - 1 && eq(o, e.s[j].val, l), "signature"); } }
  for (size_t i = 0; i < M.t.no; i++) { const PSBTOutputMetadata &a = t.txOutsMeta[i]; const In &e = M.out[i]; ASSERT(sis(a.redeemScript, e.rs, e.rn) && sis(a.witnessScript, e.ws, e.wn), "scripts of the output"); ASSERT(a.derivationsLen == e.nd, "number of derivations"); cmpder(a.derivations, a.derivationsLen, e); }
  if (ser && !M.t.sf) { uint8_t *o = exact(2000); size_t n = expect(o); outeq(t, o, n); free(o); }
}
// ---------------------------------------------------------------- building
static const char *PLANS[] = {
  /* 0 */ "", "1W22,1D2", "1W0,2D1", "1U,1D0", "1W34,1R22,1V25,2R1,2V2,2D1",
  /* 5 */ "1S", "1S,1T", "1D1,1D3,1D0", "0X1k5v3,1X3k1v4,1X7k1v5,1X8k1v6,1X32k3v2,1W1,2X9k1v1", "1V253,2V300",
  /* 10 */ "1X0k2v60", "1X1k2v9", "1X2k33v72", "1X4k2v3", "1X5k2v3", "1X6k33v4", "2X0k2v1", "2X1k2v1", "2X2k33v4",
  /* 19 */ "1X6k34v0", "1X6k34v3", "1X6k34v5", "1X6k34v9", "2X2k34v0", "2X2k34v3", "2X2k34v6", "2X2k34v7",
  /* 27 */ "1X1k1v0", "1X1k1v8", "1X1k1v9", "1X1k1v10", "1X1k1v11", "1X0k1v0", "1X0k1v10", "1X2k34v0", "1X2k34v1", "1X2k34v9",
  /* 37 */ "1X2k66v9", "1X6k66v8", "1X6k35v8", "1X2k35v9", "1S,1S", "1X6k34v8,1X6k34v4", "2X2k66v12", "1U,1W2", "1N", "1X6k34v1028", "1X6k34v1032", "1D255", "2D255",
  /* 50 */ "1W2,2D2,2S,3D1", "1W22,2U,2D2", "1S,2T,3R2,4V1",
  /* 53 */ "1W25,1D2,2D1", "1W22,1D2,1D1", "1W23,1R22,1D1", "1W23,1R5,1D1,1D1", "1W34,1V71,1D1", "1W23,1R34,1V30,1D1", "1U,1D1", "1W22,1S,1D1",
  /* 61 */ "1W22,1D2,2W25,2D3", "1W1,1D0,2W22,2D1", "1W22,1D3,2W22,2D1", "1W8,2W9", "2D2,2D1", "1W0,2D0", "1W22,1R0,1V0,1D1",
  /* 68 */ "1W25,1D1", "1W22,1D1", "1W23,1R22,1D2", "1W3", "1D1,2D2", "1W22,1D2,2W25,2D2",
  /* 74 */ "1W34,1V1,1D1", "1W23,1R1,1D1", "1W34,1V300,1D1", "1W0,1D1", "1W1,1R2,1V0,1D1"};
static void tmpl(uint8_t *p, size_t n) { if (!usym_param("tmpl", 0)) return; if (n == 22) { p[0] = 0; p[1] = 0x14; } if (n == 25) { p[0] = 0x76; p[1] = 0xa9; p[2] = 0x14; p[23] = 0x88; p[24] = 0xac; } if (n == 23) { p[0] = 0xa9; p[1] = 0x14; p[22] = 0x87; } if (n == 34) { p[0] = 0; p[1] = 32; } }
static uint8_t *bp; static size_t pp, dk_at[8], dp_at[8], dn_at[8]; static int nd_at;
static void sym(size_t n, const char *name) { if (n) cs(bp + pp, n, name); pp += n; }
static void key(size_t k) { usym_sym(bp + pp, k, "pubkey"); pp += k; } // always symbolic
static void okkey(const uint8_t *b, size_t n) { uint8_t pt[64]; ASSUME(refsec(b, n, pt)); }
static void build_psbt(const char *plan, Ref &tx, Ref &prev, const Shape &s, const Shape &ps) {
  static const uint8_t pre[7] = {0x70, 0x73, 0x62, 0x74, 0xff, 1, 0}; bp = exact(6000); pp = 0; memcpy(bp, pre, 7); pp = 7; pp += vput(bp + pp, tx.n); size_t at = pp; memcpy(bp + pp, tx.b, tx.n); pp += tx.n; int good = usym_param("goodkeys", 1);
  const char *c = plan; for (int sec = 0; sec < 1 + s.ni + s.no; sec++) {
    while (*c && *c - '0' == sec) { char t = c[1]; c += 2; int v = 0; while (*c >= '0' && *c <= '9') v = v * 10 + *c++ - '0'; int out = sec > s.ni;
      if (t == 'W') { bp[pp++] = 1; bp[pp++] = 1; pp += vput(bp + pp, 8 + (v < 0xfd ? 1 : 3) + v); sym(8, "amount"); pp += vput(bp + pp, v); sym(v, "script"); tmpl(bp + pp - v, v); }
      if (t == 'U' || t == 'N') { if (t == 'U') { uint8_t h[32]; dsha(prev.leg, prev.legn, h); memcpy(bp + at + tx.in[sec - 1], h, 32); } bp[pp++] = 1; bp[pp++] = 0; pp += vput(bp + pp, prev.n); memcpy(bp + pp, prev.b, prev.n); pp += prev.n; }
      if (t == 'D') { size_t k = usym_param("unc", 0) ? 65 : 33; bp[pp++] = k + 1; bp[pp++] = out ? 2 : 6; size_t q = pp; key(k); if (usym_param("match", 0) >> nd_at & 1) memset(bp + q, 2, k); else if (good) { bp[q] = k == 65 ? 4 : usym_param("par", 0) ? usym_param("par", 2) : 2 + (bp[q] & 1); okkey(bp + q, k); } pp += vput(bp + pp, 4 + 4 * v); dk_at[nd_at & 7] = q; dp_at[nd_at & 7] = pp; dn_at[nd_at++ & 7] = v; usym_sym(bp + pp, 4 + 4 * v, "path"); if (usym_param("pc", 0)) for (int i = 0; i < v; i++) { memset(bp + pp + 4 + 4 * i, 0, 4); bp[pp + 4 + 4 * i] = nd_at > 1 ? 7 + pick("step", 0, 1) : 7; } long hp = usym_param("hp", -1); if (hp >= 0) for (int i = 0; i < v; i++) { uint8_t &x = bp[pp + 4 + 4 * i + 3]; x = hp >> i & 1 ? x | 0x80 : x & 0x7f; } pp += 4 + 4 * v; }
      if (t == 'S' || t == 'T') { size_t k = t == 'T' ? 65 : 33; bp[pp++] = k + 1; bp[pp++] = 2; size_t q = pp; key(k); if (good) { bp[q] = k == 65 ? 4 : usym_param("par", 0) ? usym_param("par", 2) : 2 + (bp[q] & 1); okkey(bp + q, k); } bp[pp++] = 6 + 32 + 3 + 1; bp[pp++] = 0x30; bp[pp++] = 4 + 32 + 3; bp[pp++] = 2; bp[pp++] = 32; ASSUME(1); size_t a = pp; sym(32, "r"); ASSUME((bp[a] >= 1) & (bp[a] <= 0x7f)); bp[pp++] = 2; bp[pp++] = 3; a = pp; sym(3, "s"); ASSUME((bp[a] >= 1) & (bp[a] <= 0x7f)); sym(1, "hashtype"); }
      if (t == 'R' || t == 'V') { bp[pp++] = 1; bp[pp++] = (out ? 0 : 4) + (t == 'V'); pp += vput(bp + pp, v); sym(v, "script"); tmpl(bp + pp - v, v); }
      if (t == 'X') { int kl = 0, vl = 0; c++; while (*c >= '0' && *c <= '9') kl = kl * 10 + *c++ - '0'; c++; while (*c >= '0' && *c <= '9') vl = vl * 10 + *c++ - '0'; pp += vput(bp + pp, kl); bp[pp] = v; size_t q = pp; pp++; sym(kl - 1, "key"); if (good && kl == 34) { bp[q + 1] = 2 + (bp[q + 1] & 1); okkey(bp + q + 1, 33); } if (good && kl == 66) { bp[q + 1] = 4; okkey(bp + q + 1, 65); } pp += vput(bp + pp, vl); sym(vl, "value"); }
      if (*c == ',') c++; }
    bp[pp++] = 0; }
  if (*c) usym_kill();
}
static void sp_psbt(PSBT &t) { // an earlier PSBT, complete or cut
  static const uint8_t d[] = {0x70, 0x73, 0x62, 0x74, 0xff, 1, 0, 60, 1, 0, 0, 0, 1, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 1, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 4, 2, 7, 8, 0, 1, 1, 1, 9, 0};
  uint8_t *c = dup(d, sizeof d); t.parse(c, usym_param("part", 0) ? (size_t)usym_param("part", 0) : sizeof d); free(c);
}
static size_t made; static uint8_t *make() {
  Shape s = shape(), ps = s; for (int i = 0; i < 4; i++) s.sl[i] = 0; s.sw = 0; Ref tx = build(s); ps.ni = 1; ps.no = usym_param("pno", 2); ps.sw = usym_param("psw", 0); Ref prev = build(ps); int pl = usym_param("plan", 0);
  build_psbt(PLANS[pl], tx, prev, s, ps); uint8_t *b = dup(bp, pp); made = pp; free(bp); return b;
}
extern "C" void h_psbt() { // modes as for the other objects; then the contents
  uint8_t *b = make(); size_t n = made; if (usym_param("pos", -1) >= 0) { size_t q = usym_param("pos", 0); if (q >= n) usym_kill(); b[q] = pick("any", 0, 255); }
  if (usym_param("sw", 0)) { } streamed<PSBT>(b, n, rpsbt, false, sp_psbt);
  uint64_t heap = usym_heap_count();
  { Rd r = {b, n, 0, 0}; rpsbt(r); superfluous = 0; PSBT t; t.parse(b, n); if (r.st == DONE) { REACH("contents"); sameas(t, 1); if (usym_param("copy", 0)) { PSBT c(t); sameas(c, 1); PSBT d; sp_psbt(d); d = t; sameas(d, 1); t = t; sameas(t, 1); d = PSBT(); ASSERT(d.tx.inputsNumber == 0 && d.length() == 7 + 1 + 10 + 1, "empty"); sameas(c, 1); c = PSBT(t); sameas(c, 1); } }
    else { PSBT c(t), d; d = t; t.length(); t.fee(); } }
  ASSERT(usym_heap_count() == heap, "no memory is leaked");
}
extern "C" void h_psbt_any() { size_t n = usym_param("n", 8), k = usym_param("pre", 5); uint8_t *b = exact(n); static const uint8_t pre[] = {0x70, 0x73, 0x62, 0x74, 0xff, 1, 0, 10, 2, 0, 0, 0, 0, 0}; usym_sym(b, n, "bytes"); for (size_t i = 0; i < k && i < n; i++) b[i] = pre[i]; streamed<PSBT>(b, n, rpsbt, false, sp_psbt); }
// ---------------------------------------------------------------- serialization
extern "C" void h_psbt_slices() { uint8_t *b = make(); PSBT t; t.parse(b, made); Rd r = {b, made, 0, 0}; rpsbt(r); ASSERT(r.st == DONE && t.getStatus() == PARSING_DONE, "parsed"); uint8_t *o = exact(3000); size_t n = expect(o); uint8_t *e = dup(o, n); free(o); slices(t, e, n);
  PSBT u; ASSERT(u.parse(e, n) == n && u.getStatus() == PARSING_DONE, "what was serialized parses"); outeq(u, e, n); }
extern "C" void h_psbt_b64() { // text form
  uint8_t *b = make(); size_t cut = usym_param("short", 0), bad = usym_param("bad", 0); usym_merge(1); Rd r = {b, made, 0, 0}; rpsbt(r); ASSERT(r.st == DONE, "well-formed");
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; size_t n = made - cut; for (size_t i = 0; i < n; i += 3) { uint32_t v = b[i] << 16 | (i + 1 < n ? b[i + 1] << 8 : 0) | (i + 2 < n ? b[i + 2] : 0); s += A[v >> 18]; s += A[(v >> 12) & 63]; s += i + 1 < n ? A[(v >> 6) & 63] : '='; s += i + 2 < n ? A[v & 63] : '='; }
  if (bad) s[bad] = '!'; PSBT t; size_t k = t.parseBase64(s); if (bad) { ASSERT(t.getStatus() != PARSING_DONE && k == 0, "malformed text is not a transaction"); REACH("bad"); return; } if (cut) { ASSERT(t.getStatus() != PARSING_DONE, "a truncated one is not complete"); REACH("short"); return; }
  ASSERT(k == made && t.getStatus() == PARSING_DONE, "base64 text is parsed"); sameas(t, 1); uint8_t *o = exact(3000); n = expect(o); std::string w = t.toBase64(), e; for (size_t i = 0; i < n; i += 3) { uint32_t v = o[i] << 16 | (i + 1 < n ? o[i + 1] << 8 : 0) | (i + 2 < n ? o[i + 2] : 0); e += A[v >> 18]; e += A[(v >> 12) & 63]; e += i + 1 < n ? A[(v >> 6) & 63] : '='; e += i + 2 < n ? A[v & 63] : '='; }
  ASSERT(w.size() == e.size() && eq(w.data(), e.data(), e.size()), "base64 text of the serialization"); REACH("b64"); }
// ---------------------------------------------------------------- signing
// Child derivation (decided elsewhere) is an uninterpreted function of the parent key and the index.
static void childsecret(const uint8_t *in, uint8_t *o) { usym_uf("child", in, 36, o, 32); o[0] = 0x41; } // below the group order
static const uint8_t chain0[32] = {1, 2, 3};
extern "C" void rec_prv(HDPrivateKey *out, const HDPrivateKey *self, uint32_t index, bool hardened) { if (hardened && index < 0x80000000u) index += 0x80000000u; uint8_t in[36], o[32]; self->getSecret(in); memcpy(in + 32, &index, 4); childsecret(in, o); new (out) HDPrivateKey(o, chain0); }
extern "C" void rec_pub(HDPublicKey *out, const HDPublicKey *self, uint32_t index) { if (index >= 0x80000000u) { new (out) HDPublicKey(); return; } uint8_t in[36], o[32]; memcpy(in, self->point, 32); in[0] ^= 0x55; memcpy(in + 32, &index, 4); childsecret(in, o); PrivateKey k(o); new (out) HDPublicKey(k.publicKey().point, chain0); }
static HDPrivateKey child_of(const HDPrivateKey &root, const uint8_t *path, size_t n) { HDPrivateKey k = root; for (size_t i = 0; i < n; i++) { HDPrivateKey c = k.child((uint32_t)le(path + 4 * i, 4)); k = c; } return k; }
static uint8_t rootsec[32]; static void patch(uint8_t *b, size_t n, const HDPrivateKey &root, const uint8_t *fp) { // the keys (and fingerprints) of the derivations named in "match" are root's
  long m = usym_param("match", 0), mf = usym_param("matchfp", 1); for (int i = 0; i < nd_at; i++) { if (m >> i & 1) { HDPrivateKey k = child_of(root, b + dp_at[i] + 4, dn_at[i]); uint8_t s[65]; PublicKey pb = k.publicKey(); pb.compressed = true; if (usym_param("par", 0)) ASSUME((pb.point[63] & 1) == (usym_param("par", 2) & 1)); pb.sec(s, 33); memcpy(b + dk_at[i], s, 33); } if (mf >> i & 1) memcpy(b + dp_at[i], fp, 4); }
}
static int iswpkh(const uint8_t *s, size_t n) { return n == 22 && s[0] == 0 && s[1] == 0x14; }
extern "C" void h_psbt_sign() {
  Shape s = shape(), ps = s; for (int i = 0; i < 4; i++) s.sl[i] = 0; s.sw = 0; Ref tx = build(s); ps.ni = 1; ps.no = usym_param("pno", 1); ps.sw = usym_param("psw", 0); Ref prev = build(ps); build_psbt(PLANS[usym_param("plan", 0)], tx, prev, s, ps); size_t n = pp; uint8_t *b = dup(bp, n); free(bp);
  for (int i = 0; i < 32; i++) rootsec[i] = i * 3 + 1; HDPrivateKey root(rootsec, chain0); uint8_t fp[4], rs[33], rh[20]; root.publicKey().sec(rs, 33); hash160(rs, 33, rh); memcpy(fp, rh, 4); patch(b, n, root, fp);
  PSBT t; t.parse(b, n); Rd r = {b, n, 0, 0}; rpsbt(r); ASSERT((r.st == DONE) == (t.getStatus() == PARSING_DONE), "parsed"); if (r.st != DONE) return; Ref rr = tx; rr.b = (uint8_t *)M.tx; unsigned cnt = 0; uint8_t *pre = exact(5000);
  int twice = usym_param("twice", 0); uint8_t got = t.sign(root); if (twice) got = t.sign(root);
  for (size_t i = 0; i < M.t.ni; i++) { In &e = M.in[i]; for (int j = 0; j < e.nd; j++) {
    if (!eq(e.d[j].val, fp, 4)) { REACH("otherfp"); continue; } HDPrivateKey k = child_of(root, e.d[j].val + 4, e.d[j].steps); PublicKey pb = k.publicKey(); if (!eq(pb.point, e.d[j].pt, 64)) { REACH("otherkey"); continue; } cnt++; REACH("mine");
    uint8_t *sec = exact(33), pkh[20], code[25], h[32]; sec[0] = 2 + (pb.point[63] & 1); memcpy(sec + 1, pb.point, 32); hash160(sec, 33, pkh); code[0] = 0x76; code[1] = 0xa9; code[2] = 0x14; memcpy(code + 3, pkh, 20); code[23] = 0x88; code[24] = 0xac;
    Rd q = {e.utxo, e.utxon, 8, 0}; size_t sl = rvar(q); const uint8_t *spk = e.utxo + q.p; size_t l;
    if (e.wn) l = segwitPre(s, rr, i, e.ws, e.wn, e.utxo, 1, pre); else if (e.rn && iswpkh(e.rs, e.rn)) l = segwitPre(s, rr, i, code, 25, e.utxo, 1, pre); else if (e.rn) l = legacyPre(s, rr, i, e.rs, e.rn, 1, pre); else if (iswpkh(spk, sl)) l = segwitPre(s, rr, i, code, 25, e.utxo, 1, pre); else l = legacyPre(s, rr, i, spk, sl, 1, pre);
    dsha(pre, l, h); uint8_t key[32], sg[64], by, *der = exact(80); k.getSecret(key); ecdsa_sign_digest(&secp256k1, key, h, sg, &by, okcanon); size_t dl = derput(sg, der); der[dl++] = 1;
    int x = 0; for (; x < e.ns; x++) if (e.s[x].secn == 33 && eq(e.s[x].pt, pb.point, 64)) break; if (x == e.ns) e.ns++; e.s[x].sec = sec; e.s[x].secn = 33; memcpy(e.s[x].pt, pb.point, 64); e.s[x].val = der; e.s[x].n = dl; } }
  ASSERT(got == cnt, "the number of signatures made"); sameas(t, 1); REACH("signed");
}
extern "C" void h_psbt_mine() {
  Shape s = shape(), ps = s; for (int i = 0; i < 4; i++) s.sl[i] = 0; s.sw = 0; Ref tx = build(s); build_psbt(PLANS[usym_param("plan", 0)], tx, tx, s, ps); size_t n = pp; uint8_t *b = dup(bp, n); free(bp); int pub = usym_param("pub", 0);
  for (int i = 0; i < 32; i++) rootsec[i] = i * 3 + 1; HDPrivateKey root(rootsec, chain0); HDPublicKey xpub = root.xpub(); PSBT t; t.parse(b, n); Rd r = {b, n, 0, 0}; rpsbt(r); ASSERT((r.st == DONE) == (t.getStatus() == PARSING_DONE), "parsed"); if (r.st != DONE) return; size_t o = pick("output", 0, s.no + 1); int want = 0;
  if (o < (size_t)s.no) for (int j = 0; j < M.out[o].nd; j++) { Der &d = M.out[o].d[j]; uint8_t pt[64]; int ok = 1; if (pub) { HDPublicKey k = xpub; for (size_t i = 0; i < d.steps; i++) { uint32_t ix = le(d.val + 4 + 4 * i, 4); if (ix >= 0x80000000u) { ok = 0; break; } HDPublicKey c = k.child(ix); k = c; } if (ok) memcpy(pt, k.point, 64); } else { HDPrivateKey k = child_of(root, d.val + 4, d.steps); memcpy(pt, k.publicKey().point, 64); } if (ok && eq(pt, d.pt, 64)) want = 1; }
  bool m = pub ? t.isMine(o, xpub) : t.isMine(o, root); REACH(want ? "mine" : "other"); ASSERT(m == (want != 0), "an output is mine exactly when the key at one of its paths is its key"); sameas(t, 0);
}
extern "C" void h_psbt_fee() {
  uint8_t *b = make(); PSBT t; t.parse(b, made); Rd r = {b, made, 0, 0}; rpsbt(r); ASSERT((r.st == DONE) == (t.getStatus() == PARSING_DONE), "parsed"); if (r.st != DONE) return; BI(128) in = 0, out = 0; int unknown = 0; for (size_t i = 0; i < M.t.ni; i++) { if (!M.in[i].utxo) { unknown = 1; continue; } uint64_t a = le(M.in[i].utxo, 8); unknown |= a == 0; in += a; } for (size_t i = 0; i < M.t.no; i++) out += le(M.tx + M.t.out[i], 8);
  uint64_t f = t.fee(); BI(128) lim = (BI(128))1 << 64; if (unknown || out > in) { REACH("none"); ASSERT(f == 0, "no fee when an amount is unknown or the outputs exceed the inputs"); } else if (in < lim) { REACH("fee"); ASSERT(f == (uint64_t)(in - out), "the fee is the inputs minus the outputs"); } else { REACH("huge"); ASSERT(f == 0 || (in - out < lim && f == (uint64_t)(in - out)), "sums beyond 64 bits do not wrap"); }
}
