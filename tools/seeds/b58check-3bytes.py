
ID="b58check-3bytes"; PROPERTY="P02"
NEEDS="a text whose checksum differs from the right one only in its last byte"
BREAKS="base58check decoding accepts payloads with a wrong checksum"
EDITS=[("src/Conversion.cpp", "    if(memcmp(arr+l-4, hash, 4)!=0){", "    if(memcmp(arr+l-4, hash, 3)!=0){")]
DEMO="""  uint8_t p[25]; for (int i = 0; i < 21; i++) p[i] = i * 3 + 1; uint8_t h[32]; doubleSha(p, 21, h); memcpy(p + 21, h, 4);
  uint8_t o[21]; CHECK(fromBase58Check(toBase58(p, 25), o, 21) == 21); p[24] ^= 1; CHECK(fromBase58Check(toBase58(p, 25), o, 21) == 0);"""
