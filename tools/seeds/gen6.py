SPECS = [
dict(ID="ecdsa-recid", PROPERTY="P27", NEEDS="a nonce point with odd y whose s has to be negated", BREAKS="the recovery index belongs to the other point",
 EDITS=[("src/utility/trezor/ecdsa.c", "			bn_subtract(&curve->order, s, s);\n			by ^= 1;", "			bn_subtract(&curve->order, s, s);\n			by |= 1;")],
 DEMO='uint8_t d[32], h[32], o[64]; memset(d, 5, 32); PrivateKey k(d); PublicKey P = k.publicKey(); for (int i = 1; i < 16; i++) { memset(h, i, 32); Signature s = k.sign(h); s.bin(o, 64); ECScalar r(o, 32), S(o + 32, 32), z(h, 32); ECPoint R = (z / S) * GeneratorPoint + (r / S) * P; uint8_t t[65]; R.compressed = false; R.sec(t, 65); CHECK((t[64] & 1) == (s.index & 1)); }'),
dict(ID="ecdsa-s-range", PROPERTY="P27", NEEDS="a signature whose s is the group order plus a valid small s", BREAKS="a second encoding of a signature is accepted",
 EDITS=[("src/utility/trezor/ecdsa.c", "		(!bn_is_less(&r, &curve->order)) ||\n		(!bn_is_less(&s, &curve->order))) return 2;\n\n	bn_inverse(&s, &curve->order); // s^-1", "		(!bn_is_less(&r, &curve->order))) return 2;\n\n	bn_mod(&s, &curve->order);\n	if (bn_is_zero(&s)) return 2;\n	bn_inverse(&s, &curve->order); // s^-1")],
 DEMO='uint8_t d[32], rx[64], h[32], o[64]; memset(d, 5, 32); PrivateKey k(d); PublicKey P = k.publicKey(); uint8_t kk[32]; memset(kk, 7, 32); PrivateKey K(kk); PublicKey R = K.publicKey(); memcpy(rx, R.point, 32); uint8_t sm[32] = {0}; sm[31] = 9; ECScalar r(rx, 32), s(sm, 32), dd(d, 32), nn(kk, 32); ECScalar z = s * nn - r * dd; z.getSecret(h); Signature a(rx, sm); CHECK(P.verify(a, h)); uint8_t big[32] = {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x4a}; Signature b(rx, big); CHECK(!P.verify(b, h)); (void)o;'),
dict(ID="ecdsa-x-mod", PROPERTY="P27", NEEDS="a signature whose point has an x coordinate between the group order and the field prime", BREAKS="a valid signature is refused",
 EDITS=[("src/utility/trezor/ecdsa.c", "		bn_mod(&(res.x), &curve->order);\n		// signature does not match", "		// signature does not match")],
 DEMO='uint8_t n[32] = {0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x42}; uint8_t r[32] = {0}; ECPoint R; for (int i = 1; i < 60; i++) { r[31] = i; n[31] = 0x41 + i; R = ECPoint(); R.from_x(n, 32); if (R.isValid()) break; } CHECK(R.isValid()); ECPoint Q = R - GeneratorPoint; PublicKey P(Q.point, true); Signature s(r, r); CHECK(P.verify(s, r));'),
dict(ID="schnorr-odd-uncompressed", PROPERTY="P28", NEEDS="an uncompressed public key with an odd y", BREAKS="its valid signatures are refused",
 EDITS=[("src/Bitcoin.cpp", "    PublicKey pub = *this;\n    if(!pub.isEven()){\n        pub = -pub;\n    }\n    uint8_t rs[64];", "    PublicKey pub = *this;\n    if(pub.compressed && !pub.isEven()){\n        pub = -pub;\n    }\n    uint8_t rs[64];")],
 DEMO='uint8_t d[32], h[32]; memset(h, 3, 32); for (int i = 1; i < 9; i++) { memset(d, i, 32); PrivateKey k(d, false); CHECK(k.publicKey().schnorr_verify(k.schnorr_sign(h), h)); }'),
dict(ID="ecdh-compressed", PROPERTY="P28", NEEDS="a hashed ECDH with a compressed key", BREAKS="the shared secret is the hash of the x coordinate only",
 EDITS=[("src/Bitcoin.cpp", "    mult.compressed = false;\n    uint8_t sec[65];\n    mult.sec(sec, sizeof(sec));\n    if(use_hash){\n        sha256(sec+1, 64, shared_secret);", "    uint8_t sec[65];\n    size_t len = mult.sec(sec, sizeof(sec));\n    if(use_hash){\n        sha256(sec+1, len-1, shared_secret);")],
 DEMO='uint8_t d[32], e[32], a[32], b[32]; memset(d, 3, 32); memset(e, 4, 32); PrivateKey k(d), m(e); PublicKey P = m.publicKey(); P.compressed = true; k.ecdh(P, a, true); P.compressed = false; k.ecdh(P, b, true); CHECK(memcmp(a, b, 32) == 0);'),
]
