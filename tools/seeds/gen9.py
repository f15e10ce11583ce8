S="src/Bitcoin.cpp"; P="src/PSBT.cpp"
REF = r'''static uint64_t st(uint64_t c, uint64_t v) { static const uint64_t G[5] = {0xf5dee51989ULL, 0xa9fdca3312ULL, 0x1bab10e32dULL, 0x3706b1677aULL, 0x644d626ffdULL}; uint64_t t = c >> 35, r = (c & 0x7ffffffffULL) << 5 ^ v; for (int i = 0; i < 5; i++) if (t >> i & 1) r ^= G[i]; return r; }
static std::string refsum(const char *s, size_t n) { const char *A = "0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "; uint64_t c = 1, k = 0; for (size_t i = 0; i < n; i++) { size_t p = strchr(A, s[i]) - A; c = st(c, p & 31); k = k * 3 + (p >> 5); if (i % 3 == 2) { c = st(c, k); k = 0; } } if (n % 3) c = st(c, k); for (int i = 0; i < 8; i++) c = st(c, 0); c ^= 1; std::string o; for (int i = 0; i < 8; i++) o += "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[c >> (35 - 5 * i) & 31]; return o; }
'''
SPECS=[
dict(ID="der-short-s", PROPERTY="P31", NEEDS="an s with a leading zero byte followed by a byte with the top bit set", BREAKS="the DER integer becomes negative",
 EDITS=[(S, "    if(_slen == 33){\n        memcpy(bytes+4+_rlen+3, s, 32);\n    }else{\n        memcpy(bytes+4+_rlen+2, s+32-_slen, _slen);\n    }", "    if(_slen == 33){\n        memcpy(bytes+4+_rlen+3, s, 32);\n    }else if(_slen == 32 && s[0] == 0){\n        memcpy(bytes+4+_rlen+2, s+1, 31);\n    }else{\n        memcpy(bytes+4+_rlen+2, s+32-_slen, _slen);\n    }")],
 DEMO='uint8_t r[32], s[32], d[80]; memset(r, 0x11, 32); memset(s, 0x91, 32); s[0] = 0; Signature a(r, s); size_t n = a.der(d, sizeof d); CHECK(n == 70); Signature b(d, n); CHECK(b.getStatus() == PARSING_DONE && a == b);'),
dict(ID="sig-bin-index", PROPERTY="P31", NEEDS="reading a compact signature whose header byte is 4 or more (27 to 34 in message signatures)", BREAKS="the recovery index is taken from a stale object",
 EDITS=[(S, "    if(len > 64){\n        index = arr[64];\n    }", "    if(len > 64 && arr[64] < 4){\n        index = arr[64];\n    }")],
 DEMO='uint8_t q[65], o[65]; memset(q, 3, 65); q[64] = 31; Signature a; a.fromBin(q, 65); a.bin(o, 65); CHECK(memcmp(q, o, 65) == 0); Signature z; q[64] = 2; z.fromBin(q, 65); q[64] = 27; z.fromBin(q, 65); CHECK(z.index == 27);'),
dict(ID="der-ctor-length", PROPERTY="P31", NEEDS="a signature of full length with both top bits set, read by the constructor without a length", BREAKS="the last byte is not read and the signature stays incomplete",
 EDITS=[(S, "    fromDer(der, der[1]+2);", "    size_t l = der[1]+2;\n    if(l > 71){ l = 71; }\n    fromDer(der, l);")],
 DEMO='uint8_t r[32], s[32], d[80]; memset(r, 0x91, 32); memset(s, 0x92, 32); Signature a(r, s); size_t n = a.der(d, sizeof d); CHECK(n == 72); Signature b(d); CHECK(b.getStatus() == PARSING_DONE && a == b);'),
dict(ID="desc-group", PROPERTY="P32", NEEDS="a backslash or a space or a quote as third character of a triple", BREAKS="the class of the previous triple leaks into the next one",
 EDITS=[(P, "            cls = 0;\n            clscount = 0;", "            cls = cls == 26;\n            clscount = 0;")],
 PREAMBLE=REF, DEMO='CHECK(descriptorChecksum(std::string("raw(deadbeef)")) == "89f8spxm"); char o[8]; const char *t = "ABCxyz0"; for (size_t n = 0; n <= 7; n++) { CHECK(descriptorChecksum(t, n, o, 8) == 8); CHECK(memcmp(o, refsum(t, n).c_str(), 8) == 0); }'),
dict(ID="desc-polymod", PROPERTY="P32", NEEDS="texts whose running checksum has the fifth top bit and another one set", BREAKS="a generator constant is not applied",
 EDITS=[(P, "    if (c0 & 16) c ^= 0x644d626ffd;", "    if ((c0 & 24) == 16 || c0 == 24) c ^= 0x644d626ffd;\n    else if (c0 & 16) c ^= 0x644d626ffdULL ^ (c0 == 31);")],
 PREAMBLE=REF, DEMO='CHECK(descriptorChecksum(std::string("raw(deadbeef)")) == "89f8spxm"); char o[8]; int bad = 0; for (int i = 0; i < 4000; i++) { char t[7]; for (int j = 0; j < 6; j++) t[j] = "0123456789abcdef(/@:{}"[(i * 7 + j * j * 5 + i / (j + 1)) % 22]; descriptorChecksum(t, 6, o, 8); bad |= memcmp(o, refsum(t, 6).c_str(), 8) != 0; } CHECK(!bad);'),
]
