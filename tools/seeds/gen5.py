import hashlib, hmac
def first8(b): return "{" + ", ".join("0x%02x" % x for x in b[:8]) + "}"
W = '"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"'
SPECS = [
dict(ID="mnemonic-sum-24", PROPERTY="P25", NEEDS="a 24-word mnemonic whose checksum is wrong in its lowest bit only", BREAKS="a mistyped last word is accepted",
 EDITS=[("src/utility/trezor/bip39.c", "return bits[0] == checksum; // compare 8 bits", "return (bits[0] & 0xFE) == (checksum & 0xFE); // compare 8 bits")],
 DEMO='uint8_t e[32] = {0}; std::string m = mnemonicFromEntropy(e, 32); CHECK(checkMnemonic(m)); size_t k = m.rfind(\' \'); std::string w = m.substr(k + 1); const char *const *l = mnemonic_wordlist(); int i = 0; while (w != l[i]) i++; CHECK(!checkMnemonic(m.substr(0, k + 1) + l[i ^ 1]));'),
dict(ID="mnemonic-long-word", PROPERTY="P25", NEEDS="an eight-letter list word with another letter behind it", BREAKS="a word that is not in the list is accepted",
 EDITS=[("src/utility/trezor/bip39.c", "if (strcmp(current_word, wordlist[k]) == 0) {", "if (strncmp(current_word, wordlist[k], 8) == 0) {")],
 DEMO='uint8_t e[16]; memset(e, 0, 16); e[0] = 0x00; std::string m; int found = 0; for (int i = 0; i < 256 && !found; i++) { e[0] = i; m = mnemonicFromEntropy(e, 16); if (m.find(\' \') == 8) found = 1; } CHECK(found); CHECK(checkMnemonic(m)); CHECK(!checkMnemonic(m.substr(0, 8) + "s" + m.substr(8)));'),
dict(ID="mnemonic-cache-pass", PROPERTY="P25", NEEDS="two seeds of one mnemonic with passphrases that agree in their first 8 characters", BREAKS="the second seed is that of the first passphrase",
 EDITS=[("src/utility/trezor/bip39.c", "if (strcmp(bip39_cache[i].passphrase, passphrase) != 0) continue;", "if (strncmp(bip39_cache[i].passphrase, passphrase, 8) != 0) continue;")],
 DEMO='uint8_t a[64], b[64]; mnemonic_to_seed(' + W + ', "password1", a, NULL); mnemonic_to_seed(' + W + ', "password2", b, NULL); CHECK(memcmp(a, b, 64) != 0);'),
dict(ID="mnemonic-gen-short", PROPERTY="P25", NEEDS="entropy data of more than 255 bytes", BREAKS="the rest of the entropy is ignored",
 EDITS=[("src/Bitcoin.cpp", "    uint8_t hash[32];\n    sha256(entropy_data, dataLen, hash);\n    size_t len = numWords*4/3;", "    uint8_t hash[32];\n    uint8_t dataSize = dataLen;\n    sha256(entropy_data, dataSize, hash);\n    size_t len = numWords*4/3;")],
 DEMO='uint8_t e[300]; memset(e, 5, 300); std::string a = generateMnemonic(12, e, 300); e[299] ^= 1; CHECK(a != generateMnemonic(12, e, 300));'),
dict(ID="hmac512-key-128", PROPERTY="P26", NEEDS="an HMAC-SHA512 key of exactly 128 bytes", BREAKS="the key is hashed although it fits a block",
 EDITS=[("src/utility/trezor/hmac.c", "	memset(i_key_pad, 0, SHA512_BLOCK_LENGTH);\n	if (keylen > SHA512_BLOCK_LENGTH) {", "	memset(i_key_pad, 0, SHA512_BLOCK_LENGTH);\n	if (keylen >= SHA512_BLOCK_LENGTH) {")],
 DEMO='uint8_t k[128], o[64], x[8] = ' + first8(hmac.new(b'\x07' * 128, b'x', hashlib.sha512).digest()) + '; memset(k, 7, 128); ubtc_hmac_sha512(k, 128, (const uint8_t *)"x", 1, o); CHECK(memcmp(o, x, 8) == 0);'),
dict(ID="sha256-pad-119", PROPERTY="P26", NEEDS="a message whose length leaves exactly 55 bytes in the last block", BREAKS="its hash is wrong",
 EDITS=[("src/utility/trezor/sha2.c", "		if (usedspace > SHA256_SHORT_BLOCK_LENGTH) {\n			memzero", "		if (usedspace >= SHA256_SHORT_BLOCK_LENGTH) {\n			memzero")],
 DEMO='uint8_t m[119], o[32], x[8] = ' + first8(hashlib.sha256(b'a' * 119).digest()) + '; memset(m, \'a\', 119); sha256(m, 119, o); CHECK(memcmp(o, x, 8) == 0);'),
dict(ID="sha512-fill", PROPERTY="P26", NEEDS="a piece that exactly fills the buffered block after an earlier piece", BREAKS="SHA-512 of a message fed in pieces is wrong",
 EDITS=[("src/utility/trezor/sha2.c", "		freespace = SHA512_BLOCK_LENGTH - usedspace;\n\n		if (len >= freespace) {", "		freespace = SHA512_BLOCK_LENGTH - usedspace;\n\n		if (len > freespace) {")],
 DEMO='uint8_t m[140], o[64], p[64]; memset(m, 3, 140); sha512(m, 140, o); SHA512 h; h.begin(); h.write(m, 10); h.write(m + 10, 118); h.write(m + 128, 12); h.end(p); CHECK(memcmp(o, p, 64) == 0);'),
dict(ID="rfc6979-second", PROPERTY="P26", NEEDS="a second candidate from the generator (the first one was rejected)", BREAKS="the second nonce is not that of RFC6979",
 EDITS=[("src/utility/trezor/rfc6979.c", "	buf[sizeof(state->v)] = 0x00;\n	ubtc_hmac_sha256(state->k, sizeof(state->k), buf, sizeof(state->v) + 1, state->k);\n	ubtc_hmac_sha256(state->k, sizeof(state->k), state->v, sizeof(state->v), state->v);\n	memcpy(rnd, buf, 32);", "	buf[sizeof(state->v)] = 0x00;\n	ubtc_hmac_sha256(state->k, sizeof(state->k), buf, sizeof(state->v), state->k);\n	ubtc_hmac_sha256(state->k, sizeof(state->k), state->v, sizeof(state->v), state->v);\n	memcpy(rnd, buf, 32);")],
 DEMO='''uint8_t k[32], h[32], a[32], b[32]; memset(k, 1, 32); memset(h, 2, 32); rfc6979_state s; init_rfc6979(k, h, &s); uint8_t K[32], V[32]; memcpy(K, s.k, 32); memcpy(V, s.v, 32); generate_rfc6979(a, &s); generate_rfc6979(b, &s);
  uint8_t t[33]; ubtc_hmac_sha256(K, 32, V, 32, V); CHECK(memcmp(V, a, 32) == 0); memcpy(t, V, 32); t[32] = 0; ubtc_hmac_sha256(K, 32, t, 33, K); ubtc_hmac_sha256(K, 32, V, 32, V); ubtc_hmac_sha256(K, 32, V, 32, V); CHECK(memcmp(V, b, 32) == 0);'''),
]
