// Text and integer codecs of Conversion.h against their definitions.
#include "h.h"
#include "Conversion.h"
#include "Hash.h"
static const char HEXD[] = "0123456789abcdef";
static const char B58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char B43[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:";
static inline int ishex(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static inline uint8_t hexval(uint8_t c) { return (c & 15) + 9 * (c >> 6); } // for hex digits only
static inline uint8_t hexdig(uint8_t v) { return v < 10 ? '0' + v : 'a' + v - 10; }

extern "C" void h_hex_encode() {
  usym_merge(1);
  size_t n = usym_param("n", 4);
  uint8_t *a = symbuf(n, "data"), *keep = dup(a, n);
  size_t cap = pick("cap", 2 * n >= 2 ? 2 * n - 2 : 0, 2 * n + 2);
  char *o = (char *)filled(cap, 0x5a);
  size_t r = toHex(a, n, o, cap);
  ASSERT(eq(a, keep, n), "toHex leaves its input unchanged");
  if (cap < 2 * n) { REACH("hex-small"); ASSERT(r == 0, "toHex refuses a buffer shorter than 2n"); return; }
  REACH("hex-ok");
  ASSERT(r == 2 * n, "toHex returns 2n");
  int ok = 1;
  for (size_t i = 0; i < n; i++) { ok &= (uint8_t)o[2 * i] == hexdig(a[i] >> 4); ok &= (uint8_t)o[2 * i + 1] == hexdig(a[i] & 15); }
  ASSERT(ok, "toHex writes two lowercase hex digits per byte, high nibble first");
  ASSERT(allv(o + 2 * n, cap - 2 * n, 0), "toHex zero-fills the rest of the buffer");
  std::string s = toHex(a, n);
  ASSERT(s.length() == 2 * n && eq(s.data(), o, 2 * n), "toHex string form equals the buffer form");
  uint8_t *d = filled(n + 1, 0x77);
  ASSERT(fromHex(o, 2 * n, d, n + 1) == n && eq(d, a, n) && d[n] == 0, "fromHex inverts toHex and zero-fills");
  uint8_t *d2 = exact(n);
  ASSERT(fromHex(s, d2, n) == n && eq(d2, a, n), "fromHex(string) inverts toHex into an exact buffer");
}
// arbitrary text: leading non-hex skipped, decoding stops at the first bad pair
extern "C" void h_hex_decode() {
  size_t n = usym_param("n", 5);
  char *t = (char *)symbuf(n, "text");
  size_t cap = pick("cap", 0, n / 2 + 1);
  uint8_t *o = filled(cap, 0x5a);
  size_t r = fromHex(t, n, o, cap);
  size_t off = 0; while (off < n && !ishex(t[off])) off++;
  size_t k = 0; while (off + 2 * k + 1 < n && ishex(t[off + 2 * k]) && ishex(t[off + 2 * k + 1])) k++;
  if (k <= cap) {
    REACH("hexdec-fits");
    ASSERT(r == k, "fromHex returns the number of complete hex pairs before the first bad character");
    int ok = 1;
    for (size_t i = 0; i < k; i++) ok &= o[i] == (uint8_t)(hexval(t[off + 2 * i]) << 4 | hexval(t[off + 2 * i + 1]));
    ASSERT(ok, "fromHex decodes each pair to its value");
    ASSERT(allv(o + k, cap - k, 0), "fromHex zero-fills the unused part of the output");
  } else { REACH("hexdec-big"); ASSERT(r <= cap, "fromHex never reports more bytes than the buffer holds"); }
  if (n) { uint8_t v = hexToVal(t[0]); ASSERT(ishex(t[0]) ? v == hexval(t[0]) : v > 15, "hexToVal classifies every character"); }
}
extern "C" void h_bin_codec() {
  usym_merge(1);
  size_t n = usym_param("n", 2);
  uint8_t *a = symbuf(n, "data");
  size_t cap = pick("cap", n ? 8 * n - 1 : 0, 8 * n + 1);
  char *o = (char *)filled(cap, 0x5a);
  size_t r = toBin(a, n, o, cap);
  if (cap < 8 * n) { REACH("bin-small"); ASSERT(r == 0, "toBin refuses a short buffer"); return; }
  int ok = 1;
  for (size_t i = 0; i < 8 * n; i++) ok &= (uint8_t)o[i] == '0' + ((a[i / 8] >> (7 - i % 8)) & 1);
  ASSERT(r == 8 * n && ok, "toBin writes the bits of every byte, most significant first");
  ASSERT(allv(o + 8 * n, cap - 8 * n, 0), "toBin zero-fills the rest");
  std::string s = toBin(a, n);
  ASSERT(s.length() == 8 * n && eq(s.data(), o, 8 * n), "toBin string form equals the buffer form");
  uint8_t *d = exact(n), *d2 = exact(n);
  ASSERT(fromBin(o, 8 * n, d, n) == n && eq(d, a, n), "fromBin inverts toBin");
  ASSERT(fromBin(s, d2, n) == n && eq(d2, a, n), "fromBin(string) inverts toBin");
  REACH("bin-ok");
}
extern "C" void h_bin_decode() {
  usym_merge(1);
  size_t n = usym_param("n", 9), want = (n + 7) / 8;
  char *t = (char *)symbuf(n, "text");
  size_t cap = pick("cap", want ? want - 1 : 0, want + 1);
  uint8_t *o = filled(cap, 0x5a);
  size_t r = fromBin(t, n, o, cap);
  int valid = 1; for (size_t i = 0; i < n; i++) valid &= (t[i] == '0') | (t[i] == '1');
  if (cap < want) { ASSERT(r == 0, "fromBin refuses a short output"); return; }
  if (!valid) { REACH("bindec-bad"); ASSERT(r == 0, "fromBin refuses any character other than 0 and 1"); return; }
  REACH("bindec-ok");
  ASSERT(r == want, "fromBin returns ceil(bits/8)");
  BI(512) v = 0, w = 0;
  for (size_t i = 0; i < n; i++) v = (v << 1) | (BI(512))((uint8_t)t[i] & 1);
  for (size_t i = 0; i < want; i++) w = (w << 8) | (BI(512))o[i];
  ASSERT(v == w, "fromBin yields the number written, right-aligned");
}
// long inputs: one symbolic byte at an arbitrary place of a long string
extern "C" void h_bin_long() {
  size_t n = usym_param("n", 260);
  uint8_t *a = exact(n); for (size_t i = 0; i < n; i++) a[i] = i * 37 + 1;
  size_t pos = usym_param("pos", 0); uint8_t v; usym_sym(&v, 1, "byte"); a[pos] = v;
  usym_merge(1);
  std::string s = toBin(a, n), h = toHex(a, n);
  uint8_t *d = exact(n), *d2 = exact(n);
  ASSERT(s.length() == 8 * n && fromBin(s, d, n) == n && eq(d, a, n), "fromBin inverts toBin on long input");
  ASSERT(h.length() == 2 * n && fromHex(h, d2, n) == n && eq(d2, a, n), "fromHex inverts toHex on long input");
  REACH("long");
}
static BI(256) val(const uint8_t *a, size_t n) { BI(256) v = 0; for (size_t i = 0; i < n; i++) v = (v << 8) | (BI(256))a[i]; return v; }
static size_t enc(int b43, const uint8_t *a, size_t n, char *o, size_t c) { return b43 ? toBase43(a, n, o, c) : toBase58(a, n, o, c); }
static size_t dec(int b43, const char *a, size_t n, uint8_t *o, size_t c) { return b43 ? fromBase43(a, n, o, c) : fromBase58(a, n, o, c); }
static uint8_t digval(int b43, uint8_t c) { // value of a character, 255 if outside the alphabet
  uint8_t r = 255; const char *t = b43 ? B43 : B58; unsigned m = b43 ? 43 : 58;
  for (unsigned i = 0; i < m; i++) r = c == (uint8_t)t[i] ? (uint8_t)i : r;
  return r;
}
// encoding denotes the same number, keeps one leading zero digit per leading zero byte, has no other leading zero digit
extern "C" void h_radix_encode() {
  int b43 = usym_param("b43", 0); size_t n = usym_param("n", 3), z = usym_param("z", 0); unsigned R = b43 ? 43 : 58;
  uint8_t *a = exact(n); memset(a, 0, n);
  for (size_t i = z; i < n; i++) { uint8_t b; usym_sym(&b, 1, "byte"); if (i == z) ASSUME(b != 0); a[i] = b; }
  size_t need = b43 ? toBase43Length(a, n) : toBase58Length(a, n);
  char *o = (char *)filled(need, 0x5a);
  size_t r = enc(b43, a, n, o, need);
  ASSERT(r > 0 || n == 0, "encode into a buffer of the advertised length succeeds"); ASSERT(r <= need, "encoded length fits the advertised length");
  BI(256) v = 0; int ok = 1;
  for (size_t i = 0; i < r; i++) { uint8_t d = digval(b43, o[i]); ok &= d < R; v = v * R + (BI(256))d; }
  ASSERT(ok, "encoded text uses only the alphabet");
  for (size_t i = 0; i < z; i++) ASSERT(i < r && digval(b43, o[i]) == 0, "each leading zero byte becomes one leading zero digit");
  if (n > z) { ASSERT(r > z && digval(b43, o[z]) != 0, "no superfluous leading digit"); REACH("radix-nonzero"); } else { ASSERT(r == z, "all-zero input encodes to exactly that many zero digits"); REACH("radix-zero"); }
  ASSERT(v == val(a, n), "encoded text denotes the number in the bytes");
  ASSERT(allv(o + r, need - r, 0), "rest of the output is zero");
  std::string s = b43 ? toBase43(a, n) : toBase58(a, n);
  ASSERT(s.length() == r && eq(s.data(), o, r), "string form equals the buffer form");
  if (need > r + 1 || 1) { // a buffer shorter than the text can never be accepted
    char *sh = (char *)exact(r ? r - 1 : 0); ASSERT(r == 0 || enc(b43, a, n, sh, r - 1) == 0, "encode refuses a buffer shorter than the text"); }
}
// decoding denotes the same number and restores one zero byte per leading zero digit; stops at the first foreign character
extern "C" void h_radix_decode() {
  int b43 = usym_param("b43", 0); size_t n = usym_param("n", 3); unsigned R = b43 ? 43 : 58;
  char *t = (char *)symbuf(n, "text");
  if (usym_param("nonul", 0)) for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0);
  size_t k = 0; while (k < n && digval(b43, t[k]) != 255) k++;
  k = usym_concretize(k);
  BI(256) v = 0; for (size_t i = 0; i < k; i++) v = v * R + (BI(256))digval(b43, t[i]);
  size_t z = 0; while (z < k && digval(b43, t[z]) == 0) z++;
  z = usym_concretize(z);
  size_t bytes = z; BI(256) w = v; while (w != 0) { bytes++; w >>= 8; }
  size_t cap = pick("cap", bytes ? bytes - 1 : 0, bytes + 1);
  uint8_t *o = filled(cap, 0x5a);
  size_t r = dec(b43, t, n, o, cap);
  if (cap < bytes) { REACH("raddec-small"); ASSERT(r == 0, "decode refuses an output buffer that is too small"); return; }
  REACH(k < n ? "raddec-stop" : "raddec-all");
  ASSERT(r == bytes, "decoded length = leading zero digits + minimal bytes of the number");
  ASSERT(val(o, r) == v, "decoded bytes denote the number in the text");
}
// long arrays (addresses, xpubs) with k symbolic bytes at a chosen place, the rest a fixed pattern
extern "C" void h_radix_long() {
  int b43 = usym_param("b43", 0); size_t n = usym_param("n", 25), z = usym_param("z", 0), k = usym_param("k", 1), at = usym_param("at", n - 1); unsigned R = b43 ? 43 : 58;
  uint8_t *a = exact(n); for (size_t i = 0; i < n; i++) a[i] = i < z ? 0 : (uint8_t)(i * 91 + 7);
  for (size_t i = 0; i < k; i++) { uint8_t b; usym_sym(&b, 1, "byte"); a[at + i] = b; }
  usym_merge(1);
  std::string s = b43 ? toBase43(a, n) : toBase58(a, n);
  if (n <= 100 && usym_param("val", 1)) { BI(1024) v = 0, w = 0; int ok = 1;
    for (size_t i = 0; i < s.length(); i++) { uint8_t d = digval(b43, s[i]); ok &= d < R; v = v * R + (BI(1024))d; } for (size_t i = 0; i < n; i++) w = w << 8 | (BI(1024))a[i];
    ASSERT(ok, "encoded text uses only the alphabet"); ASSERT(v == w, "encoded text denotes the number in the bytes"); }
  uint8_t *d = exact(n);
  size_t r = b43 ? fromBase43(s, d, n) : fromBase58(s, d, n);
  ASSERT(r == n, "decode(encode(x)) has the length of x"); ASSERT(eq(d, a, n), "decode(encode(x)) == x"); REACH("radix-long");
}
extern "C" void h_b58check() {
  size_t n = usym_param("n", 3);
  uint8_t *a = usym_param("conc", 0) ? filled(n, 0) : symbuf(n, "data");
  if (usym_param("conc", 0)) for (size_t i = n > 25 ? 3 : 0; i < n; i++) a[i] = i * 77 + 5;
  if (usym_param("pre", 0)) a[0] = usym_param("pre", 0);
  usym_merge(usym_param("merge", 0));
  uint8_t *p = exact(n + 4), h[32]; memcpy(p, a, n); doubleSha(a, n, h);
  usym_assume(1); memcpy(p + n, h, 4);
  std::string s = toBase58Check(a, n), ref = toBase58(p, n + 4);
  ASSERT(s == ref, "base58check(x) == base58(x || first 4 bytes of doubleSha(x))");
  size_t cap = toBase58Length(p, n + 4); char *o = (char *)filled(cap, 0x5a); size_t r = toBase58Check(a, n, o, cap);
  ASSERT(r == ref.length() && eq(o, ref.data(), r), "buffer form of base58check equals the string form");
  if (usym_param("rt", 1)) { uint8_t *d = exact(n);
  ASSERT(fromBase58Check(s, d, n) == n && eq(d, a, n), "fromBase58Check inverts toBase58Check"); }
  REACH("b58check-ok");
}
// with the hash abstracted: accepted iff checksum matches; failure reports 0
extern "C" void h_b58check_reject() {
  size_t n = usym_param("n", 6);
  char *t = (char *)symbuf(n, "text"); for (size_t i = 0; i < n; i++) ASSUME(digval(0, t[i]) != 255);
  size_t cap = usym_param("cap", 4);
  uint8_t *o = filled(cap, 0), *raw = exact(cap + 4), h[32];
  size_t l = fromBase58(t, n, raw, cap + 4);
  size_t r = fromBase58Check(t, n, o, cap);
  if (l < 4) { REACH("short"); ASSERT(r == 0, "text too short or too long for the buffer is refused"); return; }
  doubleSha(raw, l - 4, h);
  if (eq(h, raw + l - 4, 4)) { REACH("match"); ASSERT(r == l - 4 && eq(o, raw, l - 4), "matching checksum: payload returned"); }
  else { REACH("mismatch"); ASSERT(r == 0, "mismatching checksum is refused"); }
}
// ---- base64
static uint8_t b64chr(unsigned v, int url) { uint8_t c = v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? (url ? '-' : '+') : (url ? '_' : '/'); return c; }
static uint8_t b64val(uint8_t c, int url) { // accepts + and / always, - and _ with the url flag
  uint8_t r = 255; if ((c >= 'A') & (c <= 'Z')) r = c - 'A'; if ((c >= 'a') & (c <= 'z')) r = c - 'a' + 26; if ((c >= '0') & (c <= '9')) r = c - '0' + 52;
  if (c == '+' || (url && c == '-')) r = 62; if (c == '/' || (url && c == '_')) r = 63; return r;
}
extern "C" void h_b64_encode() {
  usym_merge(1);
  size_t n = usym_param("n", 4); int fl = usym_param("flags", 0); int pad = !(fl & BASE64_NOPADDING), url = !!(fl & BASE64_URLSAFE);
  uint8_t *a = symbuf(n, "data");
  size_t chars = (n * 8 + 5) / 6, want = pad ? (n + 2) / 3 * 4 : chars;
  ASSERT(toBase64Length(a, n, fl) == want, "toBase64Length is exact");
  size_t cap = pick("cap", want ? want - 1 : 0, want + 1);
  char *o = (char *)filled(cap, 0x5a);
  size_t r = toBase64(a, n, o, cap, fl);
  if (cap < want) { ASSERT(r == 0, "toBase64 refuses a short buffer"); return; }
  ASSERT(r == want, "toBase64 returns the text length");
  int ok = 1;
  for (size_t i = 0; i < chars; i++) { unsigned bit = i * 6; unsigned v = ((unsigned)a[bit / 8] << 8 | (bit / 8 + 1 < n ? a[bit / 8 + 1] : 0)) >> (10 - bit % 8) & 63; ok &= (uint8_t)o[i] == b64chr(v, url); }
  for (size_t i = chars; i < want; i++) ok &= o[i] == '=';
  ASSERT(ok, "toBase64 text is the RFC 4648 encoding"); ASSERT(allv(o + want, cap - want, 0), "toBase64 zero-fills");
  std::string s = toBase64(a, n, fl);
  ASSERT(s.length() == want && eq(s.data(), o, want), "toBase64 string form equals the buffer form");
  uint8_t *d = exact(n);
  ASSERT(fromBase64Length(s.c_str(), want, fl) == n, "fromBase64Length is exact");
  ASSERT(fromBase64(s, d, n, fl) == n && eq(d, a, n), "fromBase64 inverts toBase64");
  std::string hx = toHex(a, n);
  ASSERT(hexToBase64(hx, fl) == s, "hexToBase64(hex(x)) == base64(x)"); ASSERT(base64ToHex(s, fl) == hx, "base64ToHex(base64(x)) == hex(x)");
  REACH("b64-ok");
}
extern "C" void h_b64_decode() {
  usym_merge(usym_param("merge", 1));
  size_t n = usym_param("n", 4); int fl = usym_param("flags", 0); int nopad = fl & BASE64_NOPADDING, url = !!(fl & BASE64_URLSAFE);
  char *t = (char *)symbuf(n, "text");
  // reference decoder: q data characters, then canonical padding or nothing
  int ok = 1; size_t q = 0; while (q < n && t[q] != '=') q++;
  q = usym_concretize(q);
  int canon = q == n || (!nopad && n % 4 == 0 && q % 4 >= 2 && q / 4 == n / 4 - 1);
  for (size_t i = q; i < n; i++) if (canon && t[i] != '=') canon = 0;
  if (nopad) { if (!canon) usym_kill(); for (size_t i = 0; i < n; i++) if (t[i] == 0) usym_kill(); } // padded or NUL-terminated text under NOPADDING: not specified
  else if (!canon && q % 4 >= 2) usym_kill(); // '=' in the middle of the text: not specified
  if (!canon || (!nopad && n % 4) || q % 4 == 1) ok = 0;
  BI(256) v = 0; for (size_t i = 0; i < q; i++) { uint8_t d = b64val(t[i], url); ok &= d != 255; v = v << 6 | (BI(256))(d & 63); }
  size_t want = q * 6 / 8; v >>= (q * 6 - want * 8);
  size_t cap = pick("cap", want ? want - 1 : 0, want + 1);
  uint8_t *o = filled(cap, 0x5a);
  size_t r = fromBase64(t, n, o, cap, fl);
  if (!ok) { REACH("b64-bad"); ASSERT(r == 0, "fromBase64 refuses malformed text"); return; }
  if (cap < want) { ASSERT(r == 0, "fromBase64 refuses a short output buffer"); return; }
  REACH("b64dec-ok"); ASSERT(r == want, "fromBase64 returns the number of bytes encoded"); ASSERT(val(o, r) == v, "fromBase64 yields the encoded bytes"); ASSERT(allv(o + r, cap - r, 0), "fromBase64 zero-fills");
}
// ---- integers
extern "C" void h_ints() {
  size_t n = usym_param("n", 8); uint8_t *a = symbuf(n, "data"); uint64_t v; usym_sym(&v, 8, "num");
  uint64_t le = 0, be = 0; for (size_t i = 0; i < n; i++) { if (i < 8) { le |= (uint64_t)a[i] << (8 * i); be |= (uint64_t)a[n - 1 - i] << (8 * i); } }
  ASSERT(littleEndianToInt(a, n) == le, "littleEndianToInt is little endian"); ASSERT(bigEndianToInt(a, n) == be, "bigEndianToInt is big endian");
  uint8_t *o = filled(n, 0x5a); intToLittleEndian(v, o, n); int ok = 1; for (size_t i = 0; i < n; i++) ok &= o[i] == (i < 8 ? (uint8_t)(v >> (8 * i)) : 0);
  ASSERT(ok, "intToLittleEndian writes n low bytes little endian");
  intToBigEndian(v, o, n); ok = 1; for (size_t i = 0; i < n; i++) ok &= o[n - 1 - i] == (i < 8 ? (uint8_t)(v >> (8 * i)) : 0);
  ASSERT(ok, "intToBigEndian writes n low bytes big endian"); REACH("ints");
}
extern "C" void h_varint() {
  uint64_t v; usym_sym(&v, 8, "num");
  unsigned L = v < 0xfd ? 1 : v <= 0xffff ? 3 : v <= 0xffffffffULL ? 5 : 9; L = usym_concretize(L);
  ASSERT(lenVarInt(v) == L, "lenVarInt is the canonical compact-size length");
  uint8_t *o = filled(L, 0x5a); ASSERT(writeVarInt(v, o, L) == L, "writeVarInt writes lenVarInt bytes");
  uint8_t ref[9]; ref[0] = L == 1 ? (uint8_t)v : L == 3 ? 0xfd : L == 5 ? 0xfe : 0xff; for (unsigned i = 1; i < L; i++) ref[i] = v >> (8 * (i - 1));
  ASSERT(eq(o, ref, L), "writeVarInt produces the canonical compact-size encoding"); ASSERT(readVarInt(o, L) == v, "readVarInt inverts writeVarInt");
  if (L > 1) { uint8_t *s = exact(L - 1); ASSERT(writeVarInt(v, s, L - 1) == 0, "writeVarInt refuses a short buffer"); } REACH("varint");
}
extern "C" void h_varint_read() {
  size_t n = usym_param("n", 9); uint8_t *a = symbuf(n, "data");
  unsigned L = a[0] < 0xfd ? 1 : a[0] == 0xfd ? 3 : a[0] == 0xfe ? 5 : 9; L = usym_concretize(L);
  uint64_t r = readVarInt(a, n);
  if (L > n) { REACH("vr-short"); ASSERT(r == 0, "readVarInt of a truncated encoding is 0"); return; }
  uint64_t v = L == 1 ? a[0] : 0; for (unsigned i = 1; i < L; i++) v |= (uint64_t)a[i] << (8 * (i - 1));
  ASSERT(r == v, "readVarInt decodes the compact-size value"); REACH("vr");
}
