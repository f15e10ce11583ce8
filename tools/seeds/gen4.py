PRE = r'''
typedef std::string S;
static S le_(uint64_t v, int n) { S s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
static S kv(S k, S v) { S s; s += (char)k.size(); s += k; if (v.size() < 253) s += (char)v.size(); else { s += (char)253; s += le_(v.size(), 2); } return s + v; }
static S txo(uint64_t a, S sc) { return le_(a, 8) + S(1, (char)sc.size()) + sc; }
static S utx(S prev, uint32_t ix, int ni = 1) { S s = le_(2, 4) + S(1, (char)ni); for (int i = 0; i < ni; i++) s += prev + le_(ix + i, 4) + S(1, 0) + le_(0xffffffff, 4); s += S(1, 1) + txo(900, S(1, 0x51)); return s + le_(0, 4); }
static S psbt(S tx, S in, S out, int ni = 1, S in2 = "") { S s("psbt\xff", 5); s += kv(S(1, 0), tx) + S(1, 0) + in + S(1, 0); if (ni > 1) s += in2 + S(1, 0); return s + out + S(1, 0); }
static S sec(const PublicKey &p) { uint8_t b[65]; size_t n = p.sec(b, 65); return S((char *)b, n); }
static bool ok(PSBT &p, const S &s) { p.reset(); size_t n = p.parse((const uint8_t *)s.data(), s.size()); return n == s.size() && p.getStatus() == PARSING_DONE; }
'''
KEY = 'uint8_t k[32], c[32]; memset(k, 7, 32); memset(c, 9, 32); HDPrivateKey root(k, c); uint8_t fp[4]; root.fingerprint(fp); HDPrivateKey ch = root.child(5); S path = S((char *)fp, 4) + le_(5, 4); PSBT p; S prev(32, 9); '
SPECS = [
dict(ID="psbt-prev-hash", PROPERTY="P21", PREAMBLE=PRE, NEEDS="a previous transaction whose hash differs from the outpoint only in the last byte", BREAKS="the amount and script of the wrong transaction are taken",
 EDITS=[("src/PSBT.cpp","if(memcmp(hash, tx.txIns[input].hash, 32) != 0){","if(memcmp(hash, tx.txIns[input].hash, 31) != 0){")],
 DEMO='S pt = utx(S(32, 3), 0); Tx t; t.parse((const uint8_t *)pt.data(), pt.size()); uint8_t h[32]; t.hash(h); PSBT p; CHECK(ok(p, psbt(utx(S((char *)h, 32), 0), kv(S(1, 0), pt), ""))); CHECK(p.txInsMeta[0].txOut.amount == 900); h[31] ^= 1; CHECK(!ok(p, psbt(utx(S((char *)h, 32), 0), kv(S(1, 0), pt), "")));'),
dict(ID="psbt-prev-index", PROPERTY="P21", PREAMBLE=PRE, NEEDS="an outpoint index equal to the number of outputs of the previous transaction", BREAKS="memory behind the outputs is read as an output",
 EDITS=[("src/PSBT.cpp","if(tempTx.outputsNumber <= tx.txIns[input].outputIndex){","if(tempTx.outputsNumber < tx.txIns[input].outputIndex){")],
 DEMO='S pt = utx(S(32, 3), 0); Tx t; t.parse((const uint8_t *)pt.data(), pt.size()); uint8_t h[32]; t.hash(h); PSBT p; CHECK(ok(p, psbt(utx(S((char *)h, 32), 0), kv(S(1, 0), pt), ""))); CHECK(!ok(p, psbt(utx(S((char *)h, 32), 1), kv(S(1, 0), pt), "")));'),
dict(ID="psbt-length-unc", PROPERTY="P22", PREAMBLE=PRE, NEEDS="a partial signature of an uncompressed key", BREAKS="length() is too small, so text forms lose the end",
 EDITS=[("src/PSBT.cpp","len += 2+txInsMeta[input].signatures[i].pubkey.length();","len += 35;")],
 DEMO='uint8_t k[32]; memset(k, 7, 32); PrivateKey a(k, false); uint8_t h[32] = {1}; Signature g = a.sign(h); uint8_t d[80]; size_t n = g.serialize(d, 80); PSBT p; S b = psbt(utx(S(32, 9), 0), kv(S(1, 2) + sec(a.publicKey()), S((char *)d, n) + S(1, 1)), ""); CHECK(ok(p, b)); CHECK(p.length() == b.size()); CHECK(p.toString().size() == 2 * b.size());'),
dict(ID="psbt-witness-short", PROPERTY="P23", PREAMBLE=PRE, NEEDS="an input with a witness script of a single byte", BREAKS="a legacy instead of a segwit hash is signed",
 EDITS=[("src/PSBT.cpp","if(txInsMeta[i].witnessScript.length() > 1){","if(txInsMeta[i].witnessScript.length() > 2){")],
 DEMO=KEY+'S spk = S(1, 0) + S(1, 32) + S(32, 5); S b = psbt(utx(prev, 0), kv(S(1, 1), txo(1000, spk)) + kv(S(1, 5), S(1, 0x51)) + kv(S(1, 6) + sec(ch.publicKey()), path), ""); CHECK(ok(p, b)); CHECK(p.sign(root) == 1); uint8_t h[32]; uint8_t w[2] = {1, 0x51}; Script sc; sc.parse(w, 2); p.tx.sigHashSegwit(h, 0, sc, 1000); CHECK(p.txInsMeta[0].signaturesLen == 1 && ch.publicKey().verify(p.txInsMeta[0].signatures[0].signature, h));'),
dict(ID="psbt-fingerprint", PROPERTY="P23", PREAMBLE=PRE, NEEDS="a derivation whose fingerprint agrees with the root's in three bytes", BREAKS="an input is signed though the derivation names another root",
 EDITS=[("src/PSBT.cpp","if(memcmp(fingerprint, txInsMeta[i].derivations[j].fingerprint, 4) == 0){","if(memcmp(fingerprint, txInsMeta[i].derivations[j].fingerprint, 3) == 0){")],
 DEMO=KEY+'path[3] ^= 1; S spk = S(1, 0) + S(1, 20) + S(20, 5); S b = psbt(utx(prev, 0), kv(S(1, 1), txo(1000, spk)) + kv(S(1, 6) + sec(ch.publicKey()), path), ""); CHECK(ok(p, b)); CHECK(p.sign(root) == 0);'),
dict(ID="psbt-mine-x", PROPERTY="P24", PREAMBLE=PRE, NEEDS="an output with the negated key of the wallet", BREAKS="an output that cannot be spent is reported as mine",
 EDITS=[("src/PSBT.cpp","            HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);\n            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){","            HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);\n            if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 32)==0){")],
 DEMO=KEY+'S s = sec(ch.publicKey()); CHECK(ok(p, psbt(utx(prev, 0), "", kv(S(1, 2) + s, path)))); CHECK(p.isMine(0, root.xpub()) && p.isMine(0, root)); s[0] ^= 1; CHECK(ok(p, psbt(utx(prev, 0), "", kv(S(1, 2) + s, path)))); CHECK(!p.isMine(0, root.xpub()));'),
dict(ID="psbt-fee-unknown", PROPERTY="P24", PREAMBLE=PRE, NEEDS="a second input of unknown amount", BREAKS="a fee is reported though an input amount is missing",
 EDITS=[("src/PSBT.cpp","        if(txInsMeta[i].txOut.amount == 0){\n            return 0;","        if(txInsMeta[i].txOut.amount == 0 && i + 1 >= tx.outputsNumber && i == 0){\n            return 0;")],
 DEMO=KEY+'S w = kv(S(1, 1), txo(1000, S(1, 0x51))); CHECK(ok(p, psbt(utx(prev, 0, 2), w, "", 2, w))); CHECK(p.fee() == 1100); CHECK(ok(p, psbt(utx(prev, 0, 2), w, "", 2, ""))); CHECK(p.fee() == 0);'),
]
