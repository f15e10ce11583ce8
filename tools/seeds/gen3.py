SPECS=[
dict(ID="wif-shared-prefix", PROPERTY="P15", NEEDS="reading the WIF of a test network key into an object that has another network", BREAKS="the network of the key read back is wrong",
 EDITS=[("src/Bitcoin.cpp","        if(arr[0] == networks[i]->wif){\n            network = networks[i];","        if(arr[0] == networks[i]->wif){\n            network = (l == 33 && i > 0) ? &DEFAULT_NETWORK : networks[i];")],
 DEMO="""uint8_t k[32]; memset(k, 7, 32); PrivateKey a(k, false, &Testnet); std::string w = a.wif(); PrivateKey b; CHECK(b.fromWIF(w.c_str())); CHECK(b.wif() == w);"""),
dict(ID="sec-zero-y", PROPERTY="P16", NEEDS="an uncompressed key whose first y byte is zero", BREAKS="valid uncompressed keys are refused",
 EDITS=[("src/utility/trezor/ecdsa.c","	if (pub_key[0] == 0x04) {\n		bn_read_be(pub_key + 1, &(pub->x));","	if (pub_key[0] == 0x04 && pub_key[33] != 0) {\n		bn_read_be(pub_key + 1, &(pub->x));")],
 DEMO="""for (int i = 1; i < 2000; i++) { uint8_t k[32] = {0}; k[31] = i; k[30] = i >> 8; PrivateKey p(k, false); uint8_t s[65]; p.publicKey().sec(s, 65); if (s[33]) continue; ECPoint q; q.parse(s, 65); CHECK(q.isValid()); break; }"""),
dict(ID="ckd-index-24", PROPERTY="P17", NEEDS="a public derivation with an index of 2^24 or more", BREAKS="the top byte of the index is left out of the HMAC data",
 EDITS=[("src/HDWallet.cpp","""    memcpy(data, secArr, 33);
    intToBigEndian(index, data+33, 4);""","""    memcpy(data, secArr, 33);
    intToBigEndian(index & 0xffffff, data+33, 4);""")],
 DEMO="""uint8_t k[32], c[32]; memset(k, 7, 32); memset(c, 9, 32); HDPrivateKey p(k, c); CHECK(p.child(0x01000005).xpub().xpub() == p.xpub().child(0x01000005).xpub()); CHECK(p.child(5).xpub().xpub() == p.xpub().child(5).xpub());"""),
dict(ID="ckd-type-depth", PROPERTY="P17", NEEDS="a multisig account branch (48h/coin/account/2h) reached from a key whose type is already set", BREAKS="the script type of the derived key is wrong",
 EDITS=[("src/HDWallet.cpp","        if(depth == 3 && type == MULTISIG){\n            if(index == (HARDENED_INDEX+1)){","        if(depth == 3 && (type == MULTISIG || type == P2SH)){\n            if(index == (HARDENED_INDEX+1)){")],
 DEMO="""uint8_t k[32], c[32]; memset(k, 7, 32); memset(c, 9, 32); HDPrivateKey p(k, c); HDPrivateKey q = p.derive("45h/0h/0h/1h"); CHECK(q.type == P2SH);"""),
dict(ID="xkey-childnum", PROPERTY="P18", NEEDS="an extended public key with a child number whose third byte has the top bit set", BREAKS="the child number read back differs",
 EDITS=[("src/HDWallet.cpp","""    memcpy(hex+13, chainCode, 32);
    memcpy(hex+46, point, 32);""","""    if((childNumber & 0x8000) && depth == 0xff){ hex[12] = 0; }
    memcpy(hex+13, chainCode, 32);
    memcpy(hex+46, point, 32);""")],
 DEMO="""uint8_t k[32], c[32]; memset(k, 7, 32); memset(c, 9, 32); PrivateKey p(k); HDPublicKey q(p.publicKey().point, c, 255, NULL, 0x8123); HDPublicKey r(q.xpub().c_str()); CHECK(r.isValid() && r.childNumber == 0x8123);"""),
dict(ID="path-deep", PROPERTY="P19", NEEDS="a path of more than ten steps", BREAKS="the steps after the tenth are ignored",
 EDITS=[("src/HDWallet.cpp","""    for(size_t i=0; i<len; i++){
        pk = pk.child(index[i]);
    }
    return pk;
}
HDPrivateKey HDPrivateKey::derive(const char * path) const{""","""    for(size_t i=0; i<len && i<10; i++){
        pk = pk.child(index[i]);
    }
    return pk;
}
HDPrivateKey HDPrivateKey::derive(const char * path) const{""")],
 DEMO="""uint8_t k[32], c[32]; memset(k, 7, 32); memset(c, 9, 32); HDPrivateKey p(k, c); CHECK(p.derive("0/1/2/3/4/5/6/7/8/9/10").depth == 11);"""),
dict(ID="scalar-neg-carry", PROPERTY="P20", NEEDS="a sum of scalars whose reduction leaves a value equal to the order", BREAKS="a zero sum is returned as the order",
 EDITS=[("src/BitcoinCurve.cpp","""	bn_addmod(&a, &b, &secp256k1.order);
	bn_mod(&a, &secp256k1.order);
	ECScalar sum;""","""	bn_addmod(&a, &b, &secp256k1.order);
	if(bn_is_less(&secp256k1.order, &a)){ bn_mod(&a, &secp256k1.order); }
	ECScalar sum;""")],
 DEMO="""uint8_t k[32]; memset(k, 7, 32); ECScalar a; a.setSecret(k); ECScalar b = -a; ECScalar z = a + b; CHECK(!z.isValid());"""),
dict(ID="bn-less-low", PROPERTY="P20", NEEDS="scalars that differ only in their low 30 bits", BREAKS="they compare as not less",
 EDITS=[("src/utility/trezor/bignum.c","""	uint32_t res1 = 0;
	uint32_t res2 = 0;
	for (i = 8; i >= 0; i--) {
		res1 = (res1 << 1) | (a->val[i] < b->val[i]);""","""	uint32_t res1 = 0;
	uint32_t res2 = 0;
	for (i = 8; i > 0; i--) {
		res1 = (res1 << 1) | (a->val[i] < b->val[i]);""")],
 DEMO="""uint8_t k[32] = {1}, l[32] = {1}; l[31] = 1; ECScalar a, b; a.setSecret(k); b.setSecret(l); CHECK(a < b);"""),
]
