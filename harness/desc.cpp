// Descriptor checksums of BIP380.
#include "h.h"
#include "Bitcoin.h"
#include "PSBT.h"
static const char *IN3[] = {"0123456789()[],'/*abcdefgh@:$%{}", "IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~", "ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "}; // the three groups of the alphabet
static uint8_t POS[256]; // group * 32 + place, 255: not in the alphabet
static void table() { memset(POS, 255, 256); for (int g = 0; g < 3; g++) for (int i = 0; IN3[g][i]; i++) POS[(uint8_t)IN3[g][i]] = 32 * g + i; }
static uint64_t step(uint64_t c, uint64_t v) { // multiply by x and add v, over the field of 32 elements
  static const uint64_t G[5] = {0xf5dee51989ULL, 0xa9fdca3312ULL, 0x1bab10e32dULL, 0x3706b1677aULL, 0x644d626ffdULL};
  uint64_t t = c >> 35, r = (c & 0x7ffffffffULL) << 5 ^ v; for (int i = 0; i < 5; i++) r ^= -(t >> i & 1) & G[i]; return r;
}
// the reference works on the 5-bit symbols; returns whether every character is in the alphabet
static int refsum(const uint8_t *s, size_t n, char *o) {
  uint64_t c = 1, bad = 0, cls = 0; for (size_t i = 0; i < n; i++) { uint64_t p = POS[s[i]]; bad |= p == 255; c = step(c, p & 31); cls = cls * 3 + (p >> 5); if (i % 3 == 2) { c = step(c, cls); cls = 0; } }
  if (n % 3) c = step(c, cls); for (int i = 0; i < 8; i++) c = step(c, 0); c ^= 1; for (int i = 0; i < 8; i++) o[i] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[c >> (35 - 5 * i) & 31]; return !bad;
}
static uint8_t *text(size_t n) { // letters of every group, with a few arbitrary bytes
  table(); long sym = usym_param("sym", 1), at = usym_param("at", 0); uint8_t *b = exact(n); for (size_t i = 0; i < n; i++) b[i] = IN3[(i * 7 + i / 3) % 3][(i * 11 + 5) % 31]; if (sym > (long)n - at) sym = n - at; 
  if (usym_param("groups", 0)) { uint8_t v; usym_sym(&v, 1, "groups"); for (int i = 0; i < 4; i++) { int g = v >> 2 * i & 3, w = (at + i) * 13 % 31; const char t[4] = {IN3[0][w], IN3[1][w], IN3[2][w], IN3[2][(w + 1) % 31]}; b[at + i] = t[g]; } return b; } // each of four characters from any of the three groups
  long k = usym_param("bits", 0); if (k) { static char all[97]; strcpy(all, IN3[0]); strcat(all, IN3[1]); strcat(all, IN3[2]); uint8_t v; usym_sym(&v, 1, "places"); for (int i = 0; i < sym; i++) { b[at + i] = all[(i * 29 + at * 32 + 23) % (96 - (1 << k)) + (v >> k * i & ((1 << k) - 1))]; } return b; } // a window of the alphabet for each character
  if (sym > 0) usym_sym(b + at, sym, "text"); return b;
}
extern "C" void h_desc() {
  size_t n = usym_param("n", 3), m = usym_param("m", 8); uint8_t *b = text(n), *k = dup(b, n); char e[9]; int ok = refsum(b, n, e); uint8_t *o = filled(m, 0x5a);
  size_t r = descriptorChecksum((const char *)b, n, (char *)o, m);
  if (m < 8) { ASSERT(r == 0, "an output buffer below eight characters is refused"); ASSERT(allv(o, m, 0), "nothing is written"); REACH("small"); }
  else if (ok) { ASSERT(r == 8 && eq(o, e, 8), "checksum of the descriptor"); ASSERT(allv(o + 8, m - 8, 0), "the rest is zero"); REACH("sum"); }
  else { ASSERT(r == 0 && allv(o, m, 0), "a character outside the alphabet is refused"); REACH("foreign"); }
  ASSERT(eq(b, k, n), "the text is unchanged");
}
extern "C" void h_desc_str() {
  size_t n = usym_param("n", 3); uint8_t *b = text(n); char e[9]; for (size_t i = 0; i < n; i++) ASSUME(b[i] != 0); int ok = refsum(b, n, e);
  std::string s = descriptorChecksum(std::string((char *)b, n));
  if (ok) { ASSERT(s.size() == 8 && eq(s.data(), e, 8), "checksum of the string"); REACH("sum"); } else { ASSERT(s.size() == 0, "a character outside the alphabet gives the empty string"); REACH("foreign"); }
}
