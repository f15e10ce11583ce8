// Electrum's unsigned transactions: parsing, fee, signing.
#include "psbt.cpp"
#include "Electrum.h"
static const uint8_t GX[32] = {0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98};
// layout of the text being built, by offsets
static uint8_t *eb; static size_t en, ekey[4], ed[4], eam[4]; static int eseg, ebad; static Shape es; static Ref er;
static const struct { uint32_t v; ScriptType t; } VERS[] = {{0x0488b21e, UNKNOWN_TYPE}, {0x043587cf, UNKNOWN_TYPE}, {0x049d7cb2, P2SH_P2WPKH}, {0x04b24746, P2WPKH}, {0x044a5262, P2SH_P2WPKH}, {0x045f1cf6, P2WPKH}, {0x0295b43f, P2SH_P2WSH}, {0x02aa7ed3, P2WSH}, {0x024289ef, P2SH_P2WSH}, {0x02575483, P2WSH}};
static int vtype(const uint8_t *k, ScriptType *t) { uint32_t v = k[0] << 24 | k[1] << 16 | k[2] << 8 | k[3]; for (auto &e : VERS) if (v == e.v) { *t = e.t; return 1; } return 0; }
static void putkey(uint8_t *p, int i) { cs(p, 78, "account"); uint32_t v = VERS[(usym_param("ver", 0) >> 4 * i) & 15].v; for (int k = 0; k < 4; k++) p[k] = v >> (24 - 8 * k); p[45] = 2 + (i & 1); if (usym_param("content", -1) >= 0) memcpy(p + 46, GX, 32); if (usym_param("anysec", 0)) usym_sym(p + 45, 1, "sec"); }
static void build_electrum() {
  eseg = usym_param("seg", 0); es = shape(); es.sw = eseg; for (int i = 0; i < 4; i++) { es.sl[i] = eseg ? 0 : 87; es.wn[i] = 0; } long sl = usym_param("slen", -1); if (sl >= 0) es.sl[es.ni - 1] = sl; er = build(es); ebad = sl >= 0 && sl != 87; uint8_t *b = exact(4096); size_t p = 6; static const uint8_t pre[6] = {0x45, 0x50, 0x54, 0x46, 0xff, 0}; memcpy(b, pre, 6);
  if (!eseg) { memcpy(b + 6, er.b, er.n); p += er.n; for (int i = 0; i < es.ni; i++) { size_t q = 6 + er.seq[i] - es.sl[i]; if (es.sl[i] < 83) { ekey[i] = ed[i] = 0; continue; } static const uint8_t h[5] = {1, 0xff, 0x4c, 0x53, 0xff}; memcpy(b + q, h, 5); ekey[i] = q + 5; ed[i] = q + 83; putkey(b + ekey[i], i); cs(b + ed[i], es.sl[i] < 87 ? es.sl[i] - 83 : 4, "index"); } }
  else { size_t w = er.wit[0]; memcpy(b + 6, er.b, w); p += w; for (int i = 0; i < es.ni; i++) { b[p] = 0xfe; memset(b + p + 1, 0xff, 4); if (i) cs(b + p, 5, "marker"); eam[i] = p + 5; cs(b + p + 5, 8, "value"); cs(b + p + 13, 7, "skipped"); ekey[i] = p + 20; putkey(b + ekey[i], i); ed[i] = p + 98; cs(b + p + 98, 4, "index"); p += 102; } memcpy(b + p, er.b + er.lock, 4); p += 4; }
  eb = dup(b, p); en = p; free(b);
}
static uint8_t ept[4][64]; static void points() { for (int i = 0; i < es.ni; i++) { ScriptType t; if (ekey[i]) if (!vtype(eb + ekey[i], &t) || (eb[ekey[i] + 45] != 2 && eb[ekey[i] + 45] != 3) || !refsec(eb + ekey[i] + 45, 33, ept[i])) ebad = 1; } }
static void relec(Rd &r) { static const uint8_t pre[6] = {0x45, 0x50, 0x54, 0x46, 0xff, 0}; for (int i = 0; i < 6; i++) { if (r.p >= r.n) { r.st = INC; return; } if (r.b[r.p++] != pre[i]) { r.st = FAIL; return; } } if (ebad) { r.st = NOTDONE; return; } if (r.n < en) { r.st = INC; r.p = r.n; return; } r.p = en; }
static void sp_el(ElectrumTx &t) { // another transaction, or a part of one
  uint8_t d[6 + 4 + 2 + 1 + 41 + 1 + 9 + 102 + 4]; memset(d, 0, sizeof d); static const uint8_t pre[6] = {0x45, 0x50, 0x54, 0x46, 0xff, 0}; memcpy(d, pre, 6); d[11] = 1; d[12] = 1; d[54] = 1; size_t w = 64; d[w] = 0xfe; d[w + 5] = 9; memcpy(d + w + 20, "\x04\xb2\x47\x46", 4); d[w + 65] = 2; memcpy(d + w + 66, GX, 32); size_t k = usym_param("part", 0); t.parse(d, k ? k : sizeof d);
}
static void legacy_of(uint8_t *o, size_t &n) { // the transaction without scripts and witnesses
  size_t p = 4; memcpy(o, er.b, 4); p += vput(o + p, es.ni); for (int i = 0; i < es.ni; i++) { memcpy(o + p, er.b + er.in[i], 36); p += 36; o[p++] = 0; memcpy(o + p, er.b + er.seq[i], 4); p += 4; } size_t oe = eseg ? er.wit[0] : er.lock; memcpy(o + p, er.b + er.outCount, oe - er.outCount); p += oe - er.outCount; memcpy(o + p, er.b + er.lock, 4); n = p + 4;
}
static void same(const ElectrumTx &t) {
  uint8_t *o = exact(4096); size_t n; legacy_of(o, n); outeq(t, o, n); outeq(t.tx, o, n); free(o); ASSERT(t.isValid() && t.tx.inputsNumber == (size_t)es.ni && t.txInsMeta != NULL, "complete");
  for (int i = 0; i < es.ni; i++) { ElectrumInputMetadata &m = t.txInsMeta[i]; const uint8_t *k = eb + ekey[i]; ScriptType ty = UNKNOWN_TYPE; vtype(k, &ty); ASSERT(eq(m.hd.point, ept[i], 64) && eq(m.hd.chainCode, k + 13, 32), "account key and chain code"); ASSERT(m.hd.depth == k[4] && eq(m.hd.parentFingerprint, k + 5, 4) && m.hd.childNumber == ((uint32_t)k[9] << 24 | k[10] << 16 | k[11] << 8 | k[12]) && m.hd.type == ty, "other fields of the account key");
    ASSERT(m.derivation[0] == le(eb + ed[i], 2) && m.derivation[1] == le(eb + ed[i] + 2, 2), "derivation indices"); ASSERT(m.amount == (eseg ? le(eb + eam[i], 8) : 0), "amount, zero where it is not known"); }
  if (eseg) { uint64_t in = 0, out = 0; int z = 0; long long over = 0; for (int i = 0; i < es.ni; i++) { uint64_t a = le(eb + eam[i], 8); z |= a == 0; in += a; over |= a >> 61; } for (int i = 0; i < es.no; i++) { uint64_t a = le(er.b + er.out[i], 8); out += a; over |= a >> 61; } if (usym_param("fee", 0)) { ASSUME(over == 0); uint64_t f = t.fee(); ASSERT(f == (z | (in < out) ? 0 : in - out), "the fee is the inputs minus the outputs, zero if an amount is not known"); } } else ASSERT(t.fee() == 0, "no fee without amounts");
}
extern "C" void h_electrum() {
  build_electrum(); long q = usym_param("pos", -1); if (q >= 0) { if (usym_param("inkey", -1) >= 0) q += ekey[usym_param("inkey", 0)]; if ((size_t)q >= en) usym_kill(); eb[q] = usym_param("sympos", 0) ? 0 : pick("any", 0, 255); if (usym_param("sympos", 0)) usym_sym(eb + q, 1, "any"); } points();
  size_t n = en; if (usym_param("trunc", 0)) n = pick("len", 0, en); n += usym_param("extra", 0); uint8_t *b = exact(n); memset(b, 0x33, n); memcpy(b, eb, n < en ? n : en); streamed<ElectrumTx>(b, n, relec, false, sp_el);
  uint64_t heap = usym_heap_count(); { Rd r = {b, n, 0, 0}; relec(r); ElectrumTx t; t.parse(b, n); if (r.st == DONE) { REACH("contents"); same(t); if (usym_param("copy", 0)) { ElectrumTx c(t); same(c); ElectrumTx d; sp_el(d); d = t; same(d); t = t; same(t); d = ElectrumTx(); ASSERT(d.tx.inputsNumber == 0, "empty"); same(c); same(t); t = c; same(t); } } else { ElectrumTx c(t), d; sp_el(d); d = t; ASSERT(c.getStatus() == t.getStatus() && d.getStatus() == t.getStatus(), "a copy has the same status"); t.length(); } }
  ASSERT(usym_heap_count() == heap, "no memory is leaked");
}
extern "C" void h_electrum_chunks() { // the contents after three chunks
  build_electrum(); points(); ElectrumTx t; size_t u = 0, a = usym_param("cut", 70), z = pick("cut2", a, en); feed(t, eb, a, &u); feed(t, eb + a, z - a, &u); if (z < en) feed(t, eb + z, en - z, &u); if (ebad) { ASSERT(t.getStatus() != PARSING_DONE, "an invalid key is refused"); REACH("bad"); return; } ASSERT(u == en && t.getStatus() == PARSING_DONE, "parsed in chunks"); same(t); REACH("chunks");
}
extern "C" void h_electrum_any() { size_t n = usym_param("n", 8), k = usym_param("pre", 6); ebad = 1; uint8_t *b = symbuf(n, "bytes"); static const uint8_t pre[6] = {0x45, 0x50, 0x54, 0x46, 0xff, 0}; memcpy(b, pre, k < n ? k : n); ElectrumTx t; size_t u = 0; feed(t, b, n, &u); ASSERT(t.getStatus() != PARSING_DONE && u <= n, "short data is not a transaction"); ElectrumTx c(t); REACH("any"); }
extern "C" void h_electrum_sign() {
  build_electrum(); for (int i = 0; i < 32; i++) rootsec[i] = i * 3 + 1; HDPrivateKey root(rootsec, chain0); PublicKey rp = root.publicKey(); uint8_t rs[33]; rs[0] = 2 + (rp.point[63] & 1); memcpy(rs + 1, rp.point, 32); long m = usym_param("match", 1); for (int i = 0; i < es.ni; i++) if (m >> i & 1) memcpy(eb + ekey[i] + 45, rs, 33);
  points(); ElectrumTx t; t.parse(eb, en); if (ebad) { ASSERT(t.getStatus() != PARSING_DONE, "an invalid key is refused"); return; } ASSERT(t.getStatus() == PARSING_DONE, "parsed"); uint8_t *o = exact(4096); size_t on; legacy_of(o, on); Shape s = es; s.sw = 0; for (int i = 0; i < 4; i++) s.sl[i] = 0; Ref r; memset(&r, 0, sizeof r); r.b = o; size_t p = 4 + 1; for (int i = 0; i < s.ni; i++) { r.in[i] = p; r.ss[i] = p + 36; r.seq[i] = p + 37; p += 41; } r.inEnd = r.outCount = p; p++; for (int i = 0; i < s.no; i++) { r.out[i] = p; p += 8 + (s.pl[i] < 0xfd ? 1 : 3) + s.pl[i]; } r.lock = p; r.n = p + 4; r.leg = o; r.legn = on;
  uint8_t got = t.sign(root); unsigned cnt = 0; uint8_t *pre = exact(5000);
  for (int i = 0; i < s.ni; i++) { uint8_t ss[200], w[200]; size_t sn = 0, wn = 1; w[0] = 0; ScriptType ty = UNKNOWN_TYPE; vtype(eb + ekey[i], &ty);
    if (eq(ept[i], rp.point, 64)) { cnt++; REACH("mine"); HDPrivateKey k1 = root.child((uint32_t)le(eb + ed[i], 2)), k2 = k1.child((uint32_t)le(eb + ed[i] + 2, 2)); PublicKey pb = k2.publicKey(); uint8_t sec[33], pkh[20], code[25], h[32], key[32], sg[64], by, der[80]; sec[0] = 2 + (pb.point[63] & 1); memcpy(sec + 1, pb.point, 32); hash160(sec, 33, pkh); code[0] = 0x76; code[1] = 0xa9; code[2] = 0x14; memcpy(code + 3, pkh, 20); code[23] = 0x88; code[24] = 0xac; static const uint8_t zero[8] = {0};
      size_t l = ty == UNKNOWN_TYPE ? legacyPre(s, r, i, code, 25, 1, pre) : segwitPre(s, r, i, code, 25, eseg ? eb + eam[i] : zero, 1, pre); dsha(pre, l, h); k2.getSecret(key); ecdsa_sign_digest(&secp256k1, key, h, sg, &by, okcanon); size_t dl = derput(sg, der); der[dl++] = 1;
      if (ty == UNKNOWN_TYPE) { sn += pput(ss, der, dl); sn += pput(ss + sn, sec, 33); } else { wn = 0; w[wn++] = 2; w[wn++] = dl; memcpy(w + wn, der, dl); wn += dl; w[wn++] = 33; memcpy(w + wn, sec, 33); wn += 33; if (ty == P2SH_P2WPKH) { uint8_t q[22]; q[0] = 0; q[1] = 20; memcpy(q + 2, pkh, 20); sn = pput(ss, q, 22); } } } else REACH("other");
    const TxIn &x = t.tx.txIns[i]; ASSERT(sis(x.scriptSig, ss, sn), "scriptSig"); outeq(x.witness, w, wn); ASSERT(eq(x.hash, o + r.in[i], 32) && x.outputIndex == le(o + r.in[i] + 32, 4) && x.sequence == le(o + r.seq[i], 4), "outpoint and sequence are unchanged"); }
  ASSERT(got == cnt, "the number of signed inputs"); for (int i = 0; i < s.no; i++) { size_t l = 8 + (s.pl[i] < 0xfd ? 1 : 3) + s.pl[i]; outeq(t.tx.txOuts[i], o + r.out[i], l); } ASSERT(t.tx.version == le(o, 4) && t.tx.locktime == le(o + r.lock, 4), "version and locktime are unchanged"); REACH("signed");
}
