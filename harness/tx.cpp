// Streaming parsers, serialization, transactions and signature hashes.
#include "h.h"
#include "Bitcoin.h"
#include "Conversion.h"
#include "Hash.h"
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/ripemd160.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
}
// ---------------------------------------------------------------- reference parser (whole buffer at once)
enum { DONE = 0, INC = 1, FAIL = 2, NOTDONE = 3 };
struct Rd { const uint8_t *b; size_t n, p; int st; };
static uint64_t rvar(Rd &r) { // compact size
  if (r.st) return 0; if (r.p >= r.n) { r.st = INC; return 0; }
  uint8_t c = r.b[r.p++]; if (c < 0xfd) return c;
  size_t k = c == 0xfd ? 2 : c == 0xfe ? 4 : 8; if (r.n - r.p < k) { r.st = INC; r.p = r.n; return 0; }
  uint64_t v = 0; for (size_t i = 0; i < k; i++) v |= (uint64_t)r.b[r.p + i] << (8 * i); r.p += k;
  if (v < 0xfd || (k == 4 && v <= 0xffff) || (k == 8 && v <= 0xffffffffULL)) { r.st = FAIL; return 0; }
  return v;
}
static const uint8_t *rbytes(Rd &r, uint64_t k) { if (r.st) return 0; if (k > r.n - r.p) { r.st = k > 0x02000000 ? NOTDONE : INC; r.p = r.n; return 0; } const uint8_t *q = r.b + r.p; r.p += k; return q; }
static void rscript(Rd &r) { uint64_t l = rvar(r); rbytes(r, l); }
static void rwitness(Rd &r) { if (r.st) return; if (r.p >= r.n) { r.st = INC; return; } uint8_t c = r.b[r.p++]; if (c >= 0xfd) { r.st = NOTDONE; return; } for (int i = 0; i < c && !r.st; i++) rscript(r); }
static void rtxin(Rd &r) { rbytes(r, 36); rscript(r); rbytes(r, 4); }
static void rtxout(Rd &r) { rbytes(r, 8); rscript(r); }
static int superfluous; // witness marker without any witness
static void rtx(Rd &r) {
  superfluous = 0; rbytes(r, 4); if (r.st) return; if (r.p >= r.n) { r.st = INC; return; }
  int c = r.b[r.p++], sw = 0; if (c == 0) { if (r.p >= r.n) { r.st = INC; return; } if (r.b[r.p++] != 1) { r.st = FAIL; return; } if (r.p >= r.n) { r.st = INC; return; } sw = 1; c = r.b[r.p++]; }
  long mc = usym_param("maxcount", 252); ASSUME((c <= mc) | (c >= 0xfd)); if (c >= 0xfd) { r.st = NOTDONE; return; }
  for (int i = 0; i < c && !r.st; i++) rtxin(r);
  if (r.st) return; if (r.p >= r.n) { r.st = INC; return; } int o = r.b[r.p++]; ASSUME((o <= mc) | (o >= 0xfd)); if (o >= 0xfd) { r.st = NOTDONE; return; }
  for (int i = 0; i < o && !r.st; i++) rtxout(r);
  if (sw) { superfluous = 1; for (int i = 0; i < c && !r.st; i++) { if (r.p < r.n && r.b[r.p] != 0) superfluous = 0; rwitness(r); } }
  rbytes(r, 4);
}
static void rder(Rd &r) { // strict DER of two positive integers of at most 32 bytes
  if (r.p >= r.n) { r.st = INC; return; } if (r.b[0] != 0x30) { r.st = FAIL; return; }
  if (r.n < 2) { r.st = INC; r.p = r.n; return; } size_t tot = r.b[1], p = 2; if (tot > 70) { r.st = FAIL; return; }
  for (int k = 0; k < 2; k++) {
    if (p >= r.n) { r.st = INC; r.p = r.n; return; } if (r.b[p++] != 2) { r.st = FAIL; return; }
    if (p >= r.n) { r.st = INC; r.p = r.n; return; } size_t l = r.b[p++]; if (l > 33) { r.st = FAIL; return; }
    if (l == 0) { r.st = NOTDONE; return; }
    if (l == 33) { if (p >= r.n) { r.st = INC; r.p = r.n; return; } if (r.b[p] != 0) { r.st = FAIL; return; } }
    if (r.n - p < l) { r.st = INC; r.p = r.n; return; }
    int bad = l == 33 ? r.b[p + 1] < 0x80 : l > 1 ? (r.b[p] == 0 && r.b[p + 1] < 0x80) : 0; bad |= r.b[p] >= 0x80; if (bad) { r.st = NOTDONE; return; }
    p += l;
  }
  if (p != tot + 2) { r.st = NOTDONE; return; } r.p = p;
}
static void rschnorr(Rd &r) { rbytes(r, 64); }
static void rscalar(Rd &r) { // values from 1 to the group order - 1; what lies outside is decided elsewhere
  const uint8_t *p = r.b; rbytes(r, 32); if (r.st) return; BI(256) v = 0, n = 0; static const uint32_t N[] = {0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffe, 0xbaaedce6, 0xaf48a03b, 0xbfd25e8c, 0xd0364141};
  for (int i = 0; i < 32; i++) v = v << 8 | p[i]; for (int i = 0; i < 8; i++) n = n << 32 | N[i]; ASSUME((v >= 1) & (v < n));
}
static void agree(int st, size_t used, int rst, size_t rused, const char *what) {
  if (rst == NOTDONE) { ASSERT(st != PARSING_DONE, "malformed data is never reported as parsed"); return; }
  if (rst == FAIL) { ASSERT(st == PARSING_FAILED, "malformed data is refused"); return; }
  if (rst == INC) { ASSERT(st == PARSING_INCOMPLETE, "truncated data is reported as incomplete"); ASSERT(used == rused, "all available bytes are consumed"); return; }
  ASSERT(st == PARSING_DONE, what); ASSERT(used == rused, "exactly the bytes of the object are consumed");
}
template <class T> static void outeq(const T &t, const uint8_t *b, size_t n) { // serializes back to the same bytes
  ASSERT(t.length() == n, "length() is the length of the encoding"); uint8_t *o = filled(n + 1, 0x5a); size_t r = t.serialize(o, n + 1);
  ASSERT(r == n && eq(o, b, n) && o[n] == 0, "serialization returns the parsed bytes"); free(o);
}
template <class T> static size_t feed(T &t, const uint8_t *b, size_t n, size_t *tot) { uint8_t *c = dup(b, n); size_t r = t.parse(c, n); free(c); *tot += r; return r; }
// mode 0: whole buffer; 1: every cut; 2: byte by byte with empty chunks; 3: reused object; 4: hex text
template <class T> static void streamed(const uint8_t *b, size_t n, void (*ref)(Rd &), bool roundtrip, void (*spoil)(T &) = 0) {
  int mode = usym_param("mode", 1); Rd r = {b, n, 0, 0}; ref(r); bool sf = superfluous; superfluous = 0; uint64_t heap = usym_heap_count();
  {
    T t; size_t tot = 0;
    if (mode == 0) feed(t, b, n, &tot);
    else if (mode == 1) { size_t lo = usym_param("cutlo", 0), hi = usym_param("cuthi", n); if (hi > n) hi = n; if (lo > n) return; size_t k = pick("cut", lo, hi); feed(t, b, k, &tot); if (t.getStatus() == PARSING_INCOMPLETE) feed(t, b + k, n - k, &tot); }
    else if (mode == 5) { size_t k = pick("cut", 0, n), m = pick("cut2", 0, n - k); feed(t, b, k, &tot); if (t.getStatus() == PARSING_INCOMPLETE) feed(t, b + k, m, &tot); if (t.getStatus() == PARSING_INCOMPLETE) feed(t, b + k + m, n - k - m, &tot); }
    else if (mode == 2) { feed(t, b, 0, &tot); for (size_t i = 0; i < n && t.getStatus() != PARSING_FAILED; i++) { if (i && t.getStatus() == PARSING_DONE) break; feed(t, b + i, 1, &tot); if (t.getStatus() == PARSING_INCOMPLETE) feed(t, b, 0, &tot); } }
    else if (mode == 3) { if (spoil) spoil(t); ((Streamable &)t).reset(); feed(t, b, n, &tot); }
    else { char *h = (char *)exact(2 * n + 1); for (size_t i = 0; i < n; i++) { h[2 * i] = "0123456789abcdef"[b[i] >> 4]; h[2 * i + 1] = "0123456789ABCDEF"[b[i] & 15]; } h[2 * n] = 'f'; tot = t.parse(h, 2 * n + usym_param("odd", 0)); free(h); }
    int st = t.getStatus();
    agree(st, tot, r.st, r.p, "well-formed data is parsed"); REACH(r.st == DONE ? "done" : r.st == INC ? "incomplete" : "malformed");
    if (st == PARSING_DONE && r.st == DONE && roundtrip && !sf) outeq(t, b, r.p);
    if (st == PARSING_FAILED) { size_t z = 0; ASSERT(feed(t, b, n, &z) == 0 && t.getStatus() == PARSING_FAILED, "a failed parser stays failed until it is reset"); }
  }
  ASSERT(usym_heap_count() == heap, "no memory is leaked");
}
static uint8_t *input(size_t n) { // all symbolic; optionally long with a symbolic head
  size_t h = usym_param("head", (long)n), t = usym_param("tail", 0); if (h > n) h = n; uint8_t *b = exact(n); for (size_t i = 0; i < n; i++) b[i] = i * 7 + 3; if (h) usym_sym(b, h, "head"); if (t) usym_sym(b + n - t, t, "tail");
  long p0 = usym_param("b0", -1); if (p0 >= 0) b[0] = p0; p0 = usym_param("b1", -1); if (p0 >= 0) b[1] = p0; p0 = usym_param("b2", -1); if (p0 >= 0) b[2] = p0;
  long sm = usym_param("small", -1); if (sm >= 0) for (size_t i = usym_param("from", 1); i < n; i++) ASSUME((b[i] <= sm) | (b[i] >= 0xfd)); // bound on the lengths inside
  return b;
}
static void sp_script(Script &s) { uint8_t d[] = {3, 1, 2, 3}; s.parse(d, usym_param("part", 0) ? 2 : 4); }
static void sp_wit(Witness &s) { uint8_t d[] = {2, 1, 7, 2, 8, 9}; s.parse(d, usym_param("part", 0) ? 4 : 6); }
static void sp_in(TxIn &s) { uint8_t d[44]; memset(d, 0x81, 44); d[36] = 3; s.parse(d, usym_param("part", 0) ? 38 : 44); }
static void sp_out(TxOut &s) { uint8_t d[11]; memset(d, 0x81, 11); d[8] = 2; s.parse(d, usym_param("part", 0) ? 10 : 11); }
static void sp_sig(Signature &s) { uint8_t d[8] = {0x30, 6, 2, 1, 5, 2, 1, 6}; s.parse(d, usym_param("part", 0) ? 5 : 8); }
static void sp_sch(SchnorrSignature &s) { uint8_t d[64]; memset(d, 9, 64); s.parse(d, usym_param("part", 0) ? 40 : 64); }
static void sp_sca(ECScalar &s) { uint8_t d[32]; memset(d, 9, 32); s.parse(d, usym_param("part", 0) ? 20 : 32); }
extern "C" void h_stream_script() { size_t n = usym_param("n", 4); streamed<Script>(input(n), n, rscript, true, sp_script); }
extern "C" void h_stream_witness() { size_t n = usym_param("n", 4); streamed<Witness>(input(n), n, rwitness, true, sp_wit); }
extern "C" void h_stream_txin() { size_t n = usym_param("n", 42); streamed<TxIn>(input(n), n, rtxin, true, sp_in); }
extern "C" void h_stream_txout() { size_t n = usym_param("n", 10); streamed<TxOut>(input(n), n, rtxout, true, sp_out); }
extern "C" void h_stream_schnorr() { size_t n = usym_param("n", 64); streamed<SchnorrSignature>(input(n), n, rschnorr, true, sp_sch); }
extern "C" void h_stream_scalar() { size_t n = usym_param("n", 32); streamed<ECScalar>(input(n), n, rscalar, true, sp_sca); }
extern "C" void h_stream_sig() {
  size_t n = usym_param("n", 8); int rl = usym_param("rl", -1), sl = usym_param("sl", -1); uint8_t *b;
  if (rl < 0) b = input(n); else { n = 6 + rl + sl; b = exact(n + 1); for (size_t i = 0; i < n + 1; i++) b[i] = 0x41 + i; b[0] = 0x30; b[1] = rl + sl + 4; b[2] = 2; b[3] = rl; b[4 + rl] = 2; b[5 + rl] = sl; if (rl) usym_sym(b + 4, rl < 2 ? rl : 2, "r"); if (sl) usym_sym(b + 6 + rl, sl < 2 ? sl : 2, "s"); if (usym_param("tot", 0)) usym_sym(b + 1, 1, "tot"); if (usym_param("pos", -1) >= 0) usym_sym(b + usym_param("pos", 0), 1, "any"); n += usym_param("extra", 0); }
  streamed<Signature>(b, n, rder, true, sp_sig);
}
// ---------------------------------------------------------------- transactions of a given shape, all contents symbolic
static size_t vput(uint8_t *p, uint64_t v) { if (v < 0xfd) { p[0] = v; return 1; } if (v < 0x10000) { p[0] = 0xfd; p[1] = v; p[2] = v >> 8; return 3; } p[0] = 0xfe; for (int i = 0; i < 4; i++) p[1 + i] = v >> (8 * i); return 5; }
struct Shape { int ni, no, sw; size_t sl[4], pl[4], wn[4], wl[4]; };
struct Ref { uint8_t *b; size_t n; size_t in[4], ss[4], seq[4], out[4], wit[4], witEnd[4], lock, inEnd, outCount; uint8_t *leg; size_t legn; };
static size_t lens(long code, int i) { static const size_t L[] = {0, 1, 2, 22, 25, 34, 107, 252, 253, 300}; for (; i > 0; i--) code /= 10; return L[code % 10]; } // one decimal digit per element
static Shape shape() {
  Shape s; s.ni = usym_param("ni", 1); s.no = usym_param("no", 1); s.sw = usym_param("sw", 0);
  for (int i = 0; i < 4; i++) { s.sl[i] = lens(usym_param("sl", 1121), i); s.pl[i] = lens(usym_param("pl", 1212), i); long c = usym_param("wn", 1021); for (int k = 0; k < i; k++) c /= 10; s.wn[i] = c % 10; s.wl[i] = lens(usym_param("wl", 1201), i); }
  return s;
}
static void cs(uint8_t *p, size_t n, const char *name) { // contents: symbolic, or a pattern with a few symbolic bytes
  size_t k = usym_param("content", -1) < 0 ? n : (size_t)usym_param("content", 0); if (k > n) k = n;
  for (size_t i = k; i < n; i++) p[i] = i * 5 + name[0]; if (k) usym_sym(p, k, name);
}
// objects of a given shape, delivered in chunks: kind 0 script, 1 witness, 2 input, 3 output; one decimal digit of "len" per element
extern "C" void h_stream_shape() {
  int kind = usym_param("kind", 1), k = usym_param("k", 2); long code = usym_param("len", 33); uint8_t *b = exact(1400); size_t p = 0;
  if (kind == 1) b[p++] = k; else k = 1;
  if (kind == 2) { cs(b, 36, "prevout"); p = 36; } if (kind == 3) { cs(b, 8, "amount"); p = 8; }
  for (int i = 0; i < k; i++) { size_t l = lens(code, i); p += vput(b + p, l); if (l) cs(b + p, l, "data"); p += l; }
  if (kind == 2) { cs(b + p, 4, "sequence"); p += 4; }
  uint8_t *e = dup(b, p); free(b);
  if (kind == 0) streamed<Script>(e, p, rscript, true, sp_script); else if (kind == 1) streamed<Witness>(e, p, rwitness, true, sp_wit); else if (kind == 2) streamed<TxIn>(e, p, rtxin, true, sp_in); else streamed<TxOut>(e, p, rtxout, true, sp_out);
}
static Ref build(const Shape &s) {
  Ref r; memset(&r, 0, sizeof r); r.b = exact(4096); size_t p = 0; uint8_t *b = r.b; cs(b, 4, "version"); p = 4; if (s.sw) { b[p++] = 0; b[p++] = 1; } p += vput(b + p, s.ni);
  for (int i = 0; i < s.ni; i++) { r.in[i] = p; cs(b + p, 36, "prevout"); p += 36; r.ss[i] = p; p += vput(b + p, s.sl[i]); if (s.sl[i]) cs(b + p, s.sl[i], "scriptSig"); p += s.sl[i]; r.seq[i] = p; cs(b + p, 4, "sequence"); p += 4; }
  r.inEnd = r.outCount = p; p += vput(b + p, s.no);
  for (int i = 0; i < s.no; i++) { r.out[i] = p; cs(b + p, 8, "amount"); p += 8; p += vput(b + p, s.pl[i]); if (s.pl[i]) cs(b + p, s.pl[i], "scriptPubkey"); p += s.pl[i]; }
  size_t oe = p; if (s.sw) for (int i = 0; i < s.ni; i++) { r.wit[i] = p; b[p++] = s.wn[i]; for (size_t k = 0; k < s.wn[i]; k++) { size_t l = s.wl[(i + k) & 3]; p += vput(b + p, l); if (l) cs(b + p, l, "witness"); p += l; } r.witEnd[i] = p; }
  r.lock = p; cs(b + p, 4, "locktime"); p += 4; r.n = p;
  r.leg = exact(4096); memcpy(r.leg, b, 4); size_t q = 4, st = s.sw ? 6 : 4; memcpy(r.leg + q, b + st, oe - st); q += oe - st; memcpy(r.leg + q, b + r.lock, 4); r.legn = q + 4;
  return r;
}
static void dsha(const uint8_t *p, size_t n, uint8_t *o) { uint8_t t[32]; sha256_Raw(p, n, t); sha256_Raw(t, 32, o); }
static uint64_t le(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static int sis(const Script &s, const uint8_t *e, size_t n) { return s.scriptLen == n && (n == 0 || eq(s.scriptArray, e, n)); }
static void fields(const Tx &t, const Shape &s, const Ref &r) {
  ASSERT(t.version == le(r.b, 4) && t.locktime == le(r.b + r.lock, 4), "version and locktime"); ASSERT(t.inputsNumber == (size_t)s.ni && t.outputsNumber == (size_t)s.no, "counts");
  int any = 0;
  for (int i = 0; i < s.ni; i++) { const TxIn &x = t.txIns[i]; ASSERT(eq(x.hash, r.b + r.in[i], 32) && x.outputIndex == le(r.b + r.in[i] + 32, 4) && x.sequence == le(r.b + r.seq[i], 4), "outpoint and sequence");
    ASSERT(sis(x.scriptSig, r.b + r.seq[i] - s.sl[i], s.sl[i]), "scriptSig"); size_t wn = s.sw ? s.wn[i] : 0; if (wn) any = 1; ASSERT(x.witness.count() == wn && x.isSegwit() == (wn > 0), "witness count"); if (s.sw) outeq(x.witness, r.b + r.wit[i], r.witEnd[i] - r.wit[i]); outeq(x, r.b + r.in[i], r.seq[i] + 4 - r.in[i]); }
  for (int i = 0; i < s.no; i++) { const TxOut &x = t.txOuts[i]; size_t l = s.pl[i]; ASSERT(x.amount == le(r.b + r.out[i], 8), "amount"); size_t hd = l < 0xfd ? 1 : 3; ASSERT(sis(x.scriptPubkey, r.b + r.out[i] + 8 + hd, l), "scriptPubkey"); outeq(x, r.b + r.out[i], 8 + hd + l); }
  ASSERT(t.isSegwit() == (any == 1), "segwit flag");
}
static void sp_tx(Tx &t) { uint8_t d[80]; memset(d, 0x81, 80); d[4] = 0; d[5] = 1; d[6] = 1; d[7 + 36] = 0; d[48] = 1; d[57] = 0; d[58] = 1; d[59] = 1; t.parse(d, usym_param("part", 0) ? usym_param("part", 0) : 65); }
extern "C" void h_tx_stream() { // well-formed transaction, cut anywhere; every proper prefix is incomplete
  Shape s = shape(); Ref r = build(s); size_t n = r.n; if (usym_param("trunc", 0)) n = pick("len", 0, r.n); uint8_t *b = dup(r.b, n + usym_param("extra", 0)); n += usym_param("extra", 0);
  streamed<Tx>(b, n, rtx, true, sp_tx);
}
extern "C" void h_tx_struct() { // one byte anywhere in the transaction is arbitrary
  Shape s = shape(); Ref r = build(s); size_t pos = usym_param("pos", 4); if (pos >= r.n) usym_kill(); r.b[pos] = pick("any", 0, 255); uint8_t *b = dup(r.b, r.n); streamed<Tx>(b, r.n, rtx, true, sp_tx);
}
extern "C" void h_tx_any() { size_t n = usym_param("n", 12); streamed<Tx>(input(n), n, rtx, true, sp_tx); } // every short byte string
extern "C" void h_tx_fields() {
  Shape s = shape(); Ref r = build(s); uint64_t heap = usym_heap_count();
  { Tx t; size_t u = t.parse(r.b, r.n); ASSERT(t.getStatus() == PARSING_DONE && u == r.n && t.isValid(), "parsed"); fields(t, s, r); outeq(t, r.b, r.n);
    Tx c(t); fields(c, s, r); outeq(c, r.b, r.n); Tx d; d.addInput(TxIn()); d.addOutput(TxOut()); d = t; fields(d, s, r); outeq(d, r.b, r.n); d = d; outeq(d, r.b, r.n); d = Tx(); ASSERT(d.inputsNumber == 0 && d.outputsNumber == 0 && d.length() == 10, "assigning an empty transaction empties"); outeq(t, r.b, r.n);
    { Tx e; e = c; c = Tx(); outeq(e, r.b, r.n); TxIn keep = s.ni ? e.txIns[0] : TxIn(); Tx f; f.version = e.version; f.locktime = e.locktime; for (int i = 0; i < s.ni; i++) ASSERT(f.addInput(e.txIns[i]) == i + 1, "addInput"); for (int i = 0; i < s.no; i++) ASSERT(f.addOutput(e.txOuts[i]) == i + 1, "addOutput"); e = Tx(); fields(f, s, r); outeq(f, r.b, r.n); if (s.ni) outeq(keep, r.b + r.in[0], r.seq[0] + 4 - r.in[0]); }
    REACH("fields"); }
  ASSERT(usym_heap_count() == heap, "no memory is leaked");
}
extern "C" void h_tx_build() { // constructors give the same bytes
  Shape s = shape(); s.sw = 0; Ref r = build(s); uint64_t heap = usym_heap_count();
  { Tx t; t.version = le(r.b, 4); t.locktime = le(r.b + r.lock, 4);
    for (int i = 0; i < s.ni; i++) { uint8_t id[32]; for (int k = 0; k < 32; k++) id[k] = r.b[r.in[i] + 31 - k]; uint32_t ix = le(r.b + r.in[i] + 32, 4), sq = le(r.b + r.seq[i], 4); Script sc(r.b + r.seq[i] - s.sl[i], s.sl[i]);
      char *hx = (char *)exact(65); for (int k = 0; k < 32; k++) { hx[2 * k] = "0123456789abcdef"[id[k] >> 4]; hx[2 * k + 1] = "0123456789abcdef"[id[k] & 15]; } hx[64] = 0;
      int f = usym_param("form", 0); if (f == 0) { TxIn x(id, ix, sc, sq); t.addInput(x); } else if (f == 1) { TxIn x(id, ix, sq); x.scriptSig = sc; t.addInput(x); } else if (f == 2) { TxIn x(hx, ix, sc, sq); t.addInput(x); } else { TxIn x(hx, ix, sq); x.scriptSig = sc; t.addInput(x); } free(hx); }
    for (int i = 0; i < s.no; i++) { uint64_t a = le(r.b + r.out[i], 8); size_t l = s.pl[i]; Script sc(r.b + r.out[i] + 8 + (l < 0xfd ? 1 : 3), l); if (usym_param("form", 0) & 1) { TxOut o(a, sc); t.addOutput(o); } else { TxOut o(sc, a); t.addOutput(o); } }
    fields(t, s, r); outeq(t, r.b, r.n); REACH("built"); }
  ASSERT(usym_heap_count() == heap, "no memory is leaked");
  TxIn d(r.b, 1), e("00", 1, Script(), 5), g("zz", 7); ASSERT(d.sequence == 0xffffffff && e.scriptSig.scriptLen == 0 && allv(e.hash, 32, 0) && allv(g.hash, 32, 0), "defaults; a malformed txid gives zeros");
}
extern "C" void h_tx_counts() { // many inputs or outputs: the compact sizes are written in full
  int ni = usym_param("ni", 253), no = usym_param("no", 1); Tx t; t.inputsNumber = ni; t.outputsNumber = no; t.txIns = new TxIn[ni]; t.txOuts = new TxOut[no]; uint8_t *e = exact(16 + 41 * ni + 9 * no); memset(e, 0, 16 + 41 * ni + 9 * no); size_t p = 0; e[0] = 1; p = 4; p += vput(e + p, ni); p += 41 * ni; p += vput(e + p, no); p += 9 * no; p += 4;
  usym_sym(e + p - 4, 4, "locktime"); t.locktime = le(e + p - 4, 4); outeq(t, e, p); uint8_t h[32], w[32]; t.hash(h); dsha(e, p, w); ASSERT(eq(h, w, 32), "hash"); size_t o = pick("off", 0, 12); uint8_t *z = exact(p); size_t q = t.serialize(z, p - o, o); ASSERT(q == p - o && eq(z, e + o, q), "slice"); REACH("counts");
}
// ---------------------------------------------------------------- slices of a serialization
template <class T> static void slices(const T &t, const uint8_t *b, size_t n) {
  usym_merge(1); size_t lo = usym_param("offlo", 0), hi = usym_param("offhi", n + 2); if (hi > n + 2) hi = n + 2; if (lo > hi) return;
  size_t off = pick("off", lo, hi), left = off < n ? n - off : 0; size_t caps[] = {0, 1, 3, left, left + 1};
  for (size_t c : caps) { uint8_t *o = filled(c, 0x5a); size_t m = c < left ? c : left; size_t r = t.serialize(o, c, off); ASSERT(r == m, "as many bytes as fit are written"); ASSERT(eq(o, b + (off < n ? off : n), m) && allv(o + m, c - m, 0), "the bytes from the offset on"); free(o);
    for (size_t odd = 0; odd < 2; odd++) { char *h = (char *)filled(2 * c + odd, 0x5a); r = t.serialize(h, 2 * c + odd, off); ASSERT(r == m, "hex: as many bytes as fit are written"); for (size_t i = 0; i < m; i++) { uint8_t v = b[off + i]; ASSERT(h[2 * i] == "0123456789abcdef"[v >> 4] && h[2 * i + 1] == "0123456789abcdef"[v & 15], "hex digits"); } free(h); } }
  std::string s = t.serialize(off, (size_t)0); ASSERT(s.size() == 2 * left, "string of the rest"); for (size_t i = 0; i < left && i < 3; i++) { uint8_t v = b[off + i]; ASSERT(s[2 * i] == "0123456789abcdef"[v >> 4] && s[2 * i + 1] == "0123456789abcdef"[v & 15], "string digits"); }
  std::string u = t.serialize(off, (size_t)2); ASSERT(u.size() == 2 * (left < 2 ? left : 2), "string of a part"); std::string v = t.serialize(); ASSERT(v.size() == 2 * n, "whole string"); std::string w = t.toString(); ASSERT(w.size() == 2 * n && t.stringLength() == 2 * n && (n == 0 || (eq(w.data(), v.data(), 2 * n))), "toString"); REACH("slice");
}
static void conc(uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = i * 11 + 1; }
extern "C" void h_slices() {
  int k = usym_param("kind", 0); size_t n = usym_param("n", 5); uint8_t *b = exact(n); conc(b, n);
  if (k == 0) { b[0] = n - 1; if (n > 1) usym_sym(b + 1, n - 1, "data"); Script s(b + 1, n - 1); slices(s, b, n); }
  else if (k == 1) { b[0] = 2; b[1] = 1; b[3] = n - 4; usym_sym(b + 2, 1, "d"); Witness w; w.push(b + 2, 1); w.push(b + 4, n - 4); slices(w, b, n); }
  else if (k == 2) { usym_sym(b, 36, "in"); b[36] = n - 41; TxIn t; t.parse(b, n); slices(t, b, n); }
  else if (k == 3) { usym_sym(b, 8, "amount"); b[8] = n - 9; TxOut t; t.parse(b, n); slices(t, b, n); }
  else if (k == 4) { n = 64; b = exact(64); usym_sym(b, 64, "sig"); SchnorrSignature t(b); slices(t, b, 64); }
  else if (k == 5) { n = 32; b = exact(32); usym_sym(b, 32, "num"); ECScalar t; t.setSecret(b); slices(t, b, 32); }
  else if (k == 6 || k == 7) { uint8_t pt[64]; usym_sym(pt, 64, "pt"); PublicKey t(pt, k == 6); uint8_t e[65]; e[0] = k == 6 ? 2 + (pt[63] & 1) : 4; memcpy(e + 1, pt, 64); slices(t, e, k == 6 ? 33 : 65); }
  else if (k == 8) { uint8_t q[64]; memset(q, 0x41, 64); usym_sym(q + 1, 31, "r"); usym_sym(q + 33, 31, "s"); if (usym_param("hi", 0)) q[0] = q[32] = 0xc1; Signature t(q, q + 32); int hi = usym_param("hi", 0) ? 1 : 0; uint8_t e[72]; size_t p = 0; e[p++] = 0x30; e[p++] = 68 + 2 * hi; for (int i = 0; i < 2; i++) { e[p++] = 2; e[p++] = 32 + hi; if (hi) e[p++] = 0; memcpy(e + p, q + 32 * i, 32); p += 32; } slices(t, e, p); }
  else { Shape s = shape(); Ref r = build(s); Tx t; t.parse(r.b, r.n); slices(t, r.b, r.n); }
}
// ---------------------------------------------------------------- hashes and ids
static void hexis(const std::string &s, const uint8_t *b, size_t n) { ASSERT(s.size() == 2 * n, "hex length"); int ok = 1; for (size_t i = 0; i < n; i++) ok &= s[2 * i] == "0123456789abcdef"[b[i] >> 4] && s[2 * i + 1] == "0123456789abcdef"[b[i] & 15]; ASSERT(ok, "hex digits"); }
static void rev(const uint8_t *h, uint8_t *o) { for (int i = 0; i < 32; i++) o[i] = h[31 - i]; }
extern "C" void h_txid() {
  usym_merge(1); Shape s = shape(); Ref r = build(s); Tx t; t.parse(r.b, r.n); uint8_t h[32], e[32], f[32];
  dsha(r.leg, r.legn, e); ASSERT(t.hash(h) == 32 && eq(h, e, 32), "hash is the double SHA-256 of the transaction without witnesses"); rev(e, f); ASSERT(t.txid(h) == 32 && eq(h, f, 32), "txid is its reverse"); if (usym_param("str", 0)) hexis(t.txid(), f, 32);
  if (s.sw) { dsha(r.b, r.n, e); ASSERT(t.whash(h) == 32 && eq(h, e, 32), "witness hash covers the whole serialization"); rev(e, f); ASSERT(t.wtxid(h) == 32 && eq(h, f, 32), "wtxid is its reverse"); if (usym_param("str", 0)) hexis(t.wtxid(), f, 32); }
  outeq(t, r.b, r.n); REACH("txid");
}
// signature hash of legacy inputs
static size_t legacyPre(const Shape &s, const Ref &r, int idx, const uint8_t *sc, size_t scl, int ty, uint8_t *o) {
  size_t p = 0; memcpy(o, r.b, 4); p = 4; p += vput(o + p, s.ni);
  for (int i = 0; i < s.ni; i++) { memcpy(o + p, r.b + r.in[i], 36); p += 36; if (i == idx) { p += vput(o + p, scl); memcpy(o + p, sc, scl); p += scl; } else o[p++] = 0; if (i != idx && ty != 1) memset(o + p, 0, 4); else memcpy(o + p, r.b + r.seq[i], 4); p += 4; }
  int no = ty == 2 ? 0 : ty == 3 ? idx + 1 : s.no; p += vput(o + p, no);
  for (int i = 0; i < no; i++) { if (ty == 3 && i < idx) { memset(o + p, 0xff, 8); p += 8; o[p++] = 0; } else { size_t l = 8 + (s.pl[i] < 0xfd ? 1 : 3) + s.pl[i]; memcpy(o + p, r.b + r.out[i], l); p += l; } }
  memcpy(o + p, r.b + r.lock, 4); p += 4; o[p++] = ty; o[p++] = 0; o[p++] = 0; o[p++] = 0; return p;
}
static size_t segwitPre(const Shape &s, const Ref &r, int idx, const uint8_t *sc, size_t scl, const uint8_t *amt, int ty, uint8_t *o) { // BIP143
  uint8_t *t = exact(4096); size_t p = 4, q = 0; memcpy(o, r.b, 4);
  for (int i = 0; i < s.ni; i++) { memcpy(t + q, r.b + r.in[i], 36); q += 36; } dsha(t, q, o + p); p += 32; q = 0;
  if (ty == 1) { for (int i = 0; i < s.ni; i++) { memcpy(t + q, r.b + r.seq[i], 4); q += 4; } dsha(t, q, o + p); } else memset(o + p, 0, 32); p += 32; q = 0;
  memcpy(o + p, r.b + r.in[idx], 36); p += 36; p += vput(o + p, scl); memcpy(o + p, sc, scl); p += scl; memcpy(o + p, amt, 8); p += 8; memcpy(o + p, r.b + r.seq[idx], 4); p += 4;
  if (ty == 1) { for (int i = 0; i < s.no; i++) { size_t l = 8 + (s.pl[i] < 0xfd ? 1 : 3) + s.pl[i]; memcpy(t + q, r.b + r.out[i], l); q += l; } dsha(t, q, o + p); } else if (ty == 3 && idx < s.no) { size_t l = 8 + (s.pl[idx] < 0xfd ? 1 : 3) + s.pl[idx]; dsha(r.b + r.out[idx], l, o + p); } else memset(o + p, 0, 32);
  p += 32; memcpy(o + p, r.b + r.lock, 4); p += 4; o[p++] = ty; o[p++] = 0; o[p++] = 0; o[p++] = 0; free(t); return p;
}
extern "C" void h_sighash() {
  Shape s = shape(); Ref r = build(s); Tx t; t.parse(r.b, r.n); int idx = pick("index", 0, s.ni - 1), ty = pick("type", 1, 3), seg = usym_param("seg", 0); size_t scl = lens(usym_param("rl", 4), 0); uint8_t *sc = symbuf(scl, "redeem"), h[32], e[32]; Script red(sc, scl); uint8_t *pre = exact(4096);
  if (seg) { uint8_t amt[8]; usym_sym(amt, 8, "amt"); size_t l = segwitPre(s, r, idx, sc, scl, amt, ty, pre); dsha(pre, l, e); int q = ty == 1 ? t.sigHashSegwit(h, idx, red, le(amt, 8)) : t.sigHashSegwit(h, idx, red, le(amt, 8), (SigHashType)ty); ASSERT(q == 32 && eq(h, e, 32), "BIP143 signature hash"); }
  else { if (ty == 3 && idx >= s.no) { memset(e, 0, 32); e[0] = 1; } else { size_t l = legacyPre(s, r, idx, sc, scl, ty, pre); dsha(pre, l, e); } int q = ty == 1 ? t.sigHash(h, idx, red) : t.sigHash(h, idx, red, (SigHashType)ty); ASSERT(q == 32 && eq(h, e, 32), "legacy signature hash"); }
  outeq(t, r.b, r.n); REACH("sighash");
}
// ---------------------------------------------------------------- signing an input
static size_t derput(const uint8_t *q, uint8_t *o) { // shortest DER of (r, s)
  size_t p = 2; o[0] = 0x30; for (int k = 0; k < 2; k++) { const uint8_t *v = q + 32 * k; int z = 0; while (z < 31 && v[z] == 0) z++; int pad = v[z] >> 7; o[p++] = 2; o[p++] = 32 - z + pad; if (pad) o[p++] = 0; memcpy(o + p, v + z, 32 - z); p += 32 - z; } o[1] = p - 2; return p;
}
static size_t pput(uint8_t *o, const uint8_t *d, size_t n) { size_t p = 0; if (n > 255) { o[p++] = 0x4d; o[p++] = n; o[p++] = n >> 8; } else if (n > 75) { o[p++] = 0x4c; o[p++] = n; } else o[p++] = n; memcpy(o + p, d, n); return p + n; }
static int okcanon(uint8_t, uint8_t *) { return 1; }
extern "C" void h_sign() {
  Shape s = shape(); Ref r = build(s); int kind = usym_param("kind", 0), comp = usym_param("comp", 1), idx = pick("index", 0, s.ni - 1), ty = pick("type", 1, 3);
  uint8_t key[32]; for (int i = 0; i < 32; i++) key[i] = i * 3 + 1; PrivateKey pk(key, comp); uint8_t sec[65]; size_t sl = pk.publicKey().sec(sec, 65); ASSERT(sl == (comp ? 33u : 65u), "key length"); uint8_t pkh[20]; hash160(sec, sl, pkh);
  size_t scl = lens(usym_param("rl", 4), 0); uint8_t *sc; uint8_t code[600]; size_t cl;
  if (kind == 0) { scl = 25; sc = symbuf(25, "script"); sc[0] = 0x76; sc[1] = 0xa9; sc[2] = 0x14; sc[23] = 0x88; sc[24] = 0xac; }
  else if (kind == 2 || kind == 3) { scl = 22; sc = symbuf(22, "script"); sc[0] = 0; sc[1] = 0x14; }
  else { sc = symbuf(scl, "script"); if (scl) sc[0] = 0x51; }
  Script red(sc, scl); Tx t; t.parse(r.b, r.n); uint8_t amt[8]; usym_sym(amt, 8, "amt"); uint8_t *pre = exact(4096), h[32];
  Signature sig;
  if (kind < 2) { if (ty == 3 && idx >= s.no) { memset(h, 0, 32); h[0] = 1; } else { size_t l = legacyPre(s, r, idx, sc, scl, ty, pre); dsha(pre, l, h); } sig = ty == 1 ? t.signInput(idx, pk, red) : t.signInput(idx, pk, red, (SigHashType)ty); }
  else {
    if (kind < 4) { code[0] = 0x76; code[1] = 0xa9; code[2] = 0x14; memcpy(code + 3, pkh, 20); code[23] = 0x88; code[24] = 0xac; cl = 25; } else { memcpy(code, sc, scl); cl = scl; }
    size_t l = segwitPre(s, r, idx, code, cl, amt, ty, pre); dsha(pre, l, h); static const ScriptType T[] = {P2WPKH, P2SH_P2WPKH, P2WSH, P2SH_P2WSH};
    if (ty == 1 && kind == 2 && usym_param("dflt", 0)) sig = t.signSegwitInput(idx, pk, red, le(amt, 8)); else sig = t.signSegwitInput(idx, pk, red, le(amt, 8), T[kind - 2], (SigHashType)ty);
  }
  uint8_t q[64], by, der[80]; ecdsa_sign_digest(&secp256k1, key, h, q, &by, okcanon); size_t dl = derput(q, der); uint8_t got[64]; sig.bin(got, 64); ASSERT(eq(got, q, 64), "the signature returned is over the signature hash"); der[dl++] = ty;
  uint8_t *ss = exact(1024), *w = exact(1024); size_t sn = 0, wn = 0;
  if (kind < 2) { sn += pput(ss, der, dl); sn += pput(ss + sn, sec, sl); if (kind == 1) sn += pput(ss + sn, sc, scl); if (s.sw) { wn = r.witEnd[idx] - r.wit[idx]; memcpy(w, r.b + r.wit[idx], wn); } else { w[0] = 0; wn = 1; } }
  else { w[wn++] = kind < 4 ? 2 : 3; w[wn++] = dl; memcpy(w + wn, der, dl); wn += dl; w[wn++] = sl; memcpy(w + wn, sec, sl); wn += sl; if (kind > 3) { wn += vput(w + wn, scl); memcpy(w + wn, sc, scl); wn += scl; }
    if (kind == 3) sn = pput(ss, sc, 22); if (kind == 5) { uint8_t ws[34]; ws[0] = 0; ws[1] = 32; sha256_Raw(sc, scl, ws + 2); sn = pput(ss, ws, 34); } }
  const TxIn &x = t.txIns[idx]; ASSERT(sis(x.scriptSig, ss, sn), "scriptSig"); outeq(x.witness, w, wn); ASSERT(eq(x.hash, r.b + r.in[idx], 32) && x.outputIndex == le(r.b + r.in[idx] + 32, 4) && x.sequence == le(r.b + r.seq[idx], 4), "outpoint and sequence are unchanged");
  for (int i = 0; i < s.ni; i++) if (i != idx) { outeq(t.txIns[i], r.b + r.in[i], r.seq[i] + 4 - r.in[i]); if (s.sw) outeq(t.txIns[i].witness, r.b + r.wit[i], r.witEnd[i] - r.wit[i]); }
  for (int i = 0; i < s.no; i++) { size_t l = 8 + (s.pl[i] < 0xfd ? 1 : 3) + s.pl[i]; outeq(t.txOuts[i], r.b + r.out[i], l); } ASSERT(t.version == le(r.b, 4) && t.locktime == le(r.b + r.lock, 4), "version and locktime are unchanged"); REACH("signed");
}
