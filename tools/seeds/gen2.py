# several planted bugs in one file
SPECS=[
dict(ID="addr-short-payload", PROPERTY="P06", NEEDS="a Base58Check text with a valid checksum whose payload is 20 bytes instead of 21", BREAKS="text that is not an address gives a script made partly of stale bytes",
 EDITS=[("src/Script.cpp","        if(l != 21){ // either wrong checksum or wierd address","        if(l < 20){ // either wrong checksum or wierd address")],
 DEMO="""uint8_t p[20]; for (int i = 0; i < 20; i++) p[i] = 5 * i; p[0] = 0x00; char a[60] = {0}; toBase58Check(p, 20, a, 60); Script s(a); CHECK(s.scriptLen == 0);"""),
dict(ID="script-type-p2sh", PROPERTY="P07", NEEDS="a 23-byte script with OP_HASH160, 20 and a last byte other than OP_EQUAL", BREAKS="a script that is not P2SH is classified as P2SH",
 EDITS=[("src/Script.cpp","        (scriptArray[1] == 20) &&\n        (scriptArray[22] == OP_EQUAL)","        (scriptArray[1] == 20) &&\n        (scriptArray[22] >= OP_EQUAL)")],
 DEMO="""uint8_t p[23] = {0xa9, 20}; p[22] = 0x87; Script s(p, 23); CHECK(s.type() == P2SH); p[22] = 0x88; Script t(p, 23); CHECK(t.type() == UNKNOWN_TYPE);"""),
dict(ID="witness-chunk-offset", PROPERTY="P08", NEEDS="a witness of two or more elements where a chunk ends inside the data of a later element", BREAKS="the bytes of the element end up in the wrong place",
 EDITS=[("src/Script.cpp","        size_t offset = bytes_parsed+bytes_read-lenVarInt(numElements)-cur_bytes_parsed;","        size_t offset = bytes_parsed+bytes_read-lenVarInt(numElements);\n        if(bytes_read > 0){ offset -= cur_bytes_parsed; }else if(cur_element == 0){ offset = 0; }else if(cur_bytes_parsed < 4){ offset -= cur_bytes_parsed; }")],
 DEMO="""uint8_t d[] = {2, 1, 7, 6, 1, 2, 3, 4, 5, 6}; Witness w; w.parse(d, 8); if (w.getStatus() == PARSING_INCOMPLETE) w.parse(d + 8, 2); uint8_t o[10]; CHECK(w.serialize(o, 10) == 10 && !memcmp(o, d, 10));"""),
dict(ID="txin-index-chunk", PROPERTY="P08", NEEDS="a chunk that ends inside the output index of an input", BREAKS="the index of the spent output is read wrongly",
 EDITS=[("src/Transaction.cpp","        outputIndex += (c << (8*(bytes_read+bytes_parsed-32)));","        outputIndex += (c << (8*(bytes_read-(bytes_parsed < 32 ? 32-bytes_parsed : 0))));")],
 DEMO="""uint8_t d[41]; memset(d, 3, 41); d[36] = 0; d[32] = 1; d[33] = 2; TxIn t; t.parse(d, 33); t.parse(d + 33, 8); CHECK(t.getStatus() == PARSING_DONE); uint8_t o[41]; CHECK(t.serialize(o, 41) == 41 && !memcmp(o, d, 41));"""),
dict(ID="tx-assign-locktime", PROPERTY="P09", NEEDS="assigning a transaction with a locktime of 2^31 or more to another", BREAKS="the high half of large locktimes is lost on assignment",
 EDITS=[("src/Transaction.cpp","""        txOuts[i] = other.txOuts[i];
    }
    locktime = other.locktime;
    segwit_flag = other.segwit_flag;
    status = other.status;
    bytes_parsed = other.bytes_parsed;
    return *this;""","""        txOuts[i] = other.txOuts[i];
    }
    locktime = other.locktime & 0x7fffffff;
    segwit_flag = other.segwit_flag;
    status = other.status;
    bytes_parsed = other.bytes_parsed;
    return *this;""")],
 DEMO="""Tx a, b; a.locktime = 0x80000001; b = a; CHECK(b.locktime == 0x80000001);"""),
dict(ID="tx-slice-witness", PROPERTY="P10", NEEDS="a segwit transaction serialized in slices with a slice starting inside the witness of the second input", BREAKS="the slice repeats bytes",
 EDITS=[("src/Transaction.cpp","                bytes_written += s->serialize(&txIns[i].witness, bytes_written+offset-cur_offset);","                bytes_written += s->serialize(&txIns[i].witness, offset > cur_offset+1 ? offset-cur_offset : 0);")],
 DEMO="""uint8_t x[1] = {9}, y[3] = {1, 2, 3}; Tx t; TxIn i1, i2; i1.witness.push(x, 1); i2.witness.push(y, 3); t.addInput(i1); t.addInput(i2); TxOut o; t.addOutput(o); size_t n = t.length(); std::string w = t.serialize();
  for (size_t k = 0; k < n; k++) { uint8_t b[400]; size_t r = t.serialize(b, 400, k); CHECK(r == n - k); CHECK(toHex(b, r) == w.substr(2 * k)); }"""),
dict(ID="txid-segwit-scriptsig", PROPERTY="P11", NEEDS="a nested segwit transaction: inputs with both a scriptSig and a witness", BREAKS="the hash leaves out the scriptSig of segwit inputs so the txid is wrong",
 EDITS=[("src/Transaction.cpp","""int Tx::hash(uint8_t * h) const{
    DoubleSha s;
    s.begin();

    uint8_t arr[10];

    intToLittleEndian(version, arr, 4);
    s.write(arr, 4);
    size_t l = writeVarInt(inputsNumber, arr, 10);
    s.write(arr, l);
    for(unsigned int i=0; i<inputsNumber; i++){
        s.serialize(&txIns[i], 0);
    }
    l = writeVarInt(outputsNumber, arr, 10);
    s.write(arr, l);
    for(unsigned int i=0; i<outputsNumber; i++){
        s.serialize(&txOuts[i], 0);
    }
    intToLittleEndian(locktime, arr, 4);""","""int Tx::hash(uint8_t * h) const{
    DoubleSha s;
    s.begin();

    uint8_t arr[10];

    intToLittleEndian(version, arr, 4);
    s.write(arr, 4);
    size_t l = writeVarInt(inputsNumber, arr, 10);
    s.write(arr, l);
    for(unsigned int i=0; i<inputsNumber; i++){
        if(txIns[i].isSegwit()){
            TxIn t = txIns[i];
            t.scriptSig = Script();
            s.serialize(&t, 0);
        }else{
            s.serialize(&txIns[i], 0);
        }
    }
    l = writeVarInt(outputsNumber, arr, 10);
    s.write(arr, l);
    for(unsigned int i=0; i<outputsNumber; i++){
        s.serialize(&txOuts[i], 0);
    }
    intToLittleEndian(locktime, arr, 4);""")],
 DEMO="""uint8_t x[1] = {9}; Tx t; TxIn i; i.scriptSig.push(0x51); t.addInput(i); TxOut o; t.addOutput(o); std::string a = t.txid(); t.txIns[0].witness.push(x, 1); CHECK(t.txid() == a);"""),
dict(ID="sighash-sequence-order", PROPERTY="P12", NEEDS="signing an input other than the first of a transaction whose version is above 2", BREAKS="the legacy signature hash of later inputs commits to the wrong version",
 EDITS=[("src/Transaction.cpp","""    Script empty;
    DoubleSha s;
    s.begin();

    uint8_t arr[10];

    intToLittleEndian(version, arr, 4);""","""    Script empty;
    DoubleSha s;
    s.begin();

    uint8_t arr[10];

    intToLittleEndian(inputIndex > 0 && version > 2 ? 2 : version, arr, 4);""")],
 DEMO="""Tx t; t.version = 3; t.addInput(TxIn()); t.addInput(TxIn()); t.addOutput(TxOut()); Script c; c.push(0x51); uint8_t h[32], e[32]; t.sigHash(h, 1, c);
  Tx u = t; u.txIns[1].scriptSig = c; uint8_t b[300]; size_t n = u.serialize(b, 300); b[n++] = 1; b[n++] = 0; b[n++] = 0; b[n++] = 0; doubleSha(b, n, e); CHECK(!memcmp(h, e, 32));"""),
dict(ID="bip143-amount-32", PROPERTY="P13", NEEDS="an input worth more than 2^32 satoshi (42.9 BTC) together with a final sequence", BREAKS="the BIP143 hash commits to a truncated amount",
 EDITS=[("src/Transaction.cpp","    intToLittleEndian(amount, arr, 8);\n    s.write(arr, 8);\n    intToLittleEndian(txIns[inputIndex].sequence, arr, 4);","    intToLittleEndian(txIns[inputIndex].sequence == 0xffffffff ? (uint32_t)amount : amount, arr, 8);\n    s.write(arr, 8);\n    intToLittleEndian(txIns[inputIndex].sequence, arr, 4);")],
 DEMO="""Tx t; t.addInput(TxIn()); t.txIns[0].sequence = 0xffffffff; t.addOutput(TxOut()); Script c; c.push(0x51); uint8_t a[32], b[32]; t.sigHashSegwit(a, 0, c, 5); t.sigHashSegwit(b, 0, c, 0x100000005ULL); CHECK(memcmp(a, b, 32));"""),
dict(ID="sign-nested-p2wsh", PROPERTY="P14", NEEDS="signing a P2SH-P2WSH input", BREAKS="the scriptSig pushes the bare script instead of its witness program",
 EDITS=[("src/Transaction.cpp","            Script sc(redeemScript, P2WSH);\n            script_sig.push(sc);","            Script sc(redeemScript, redeemScript.length() > 76 ? P2WSH : P2SH);\n            script_sig.push(sc);")],
 DEMO="""Tx t; t.addInput(TxIn()); t.addOutput(TxOut()); uint8_t k[32]; memset(k, 7, 32); PrivateKey pk(k); Script c; c.push(0x51); t.signSegwitInput(0, pk, c, 5, P2SH_P2WSH); Script e; e.push(Script(c, P2WSH)); CHECK(t.txIns[0].scriptSig.scriptLen == e.scriptLen && !memcmp(t.txIns[0].scriptSig.scriptArray, e.scriptArray, e.scriptLen));"""),
]
