E="src/Electrum.cpp"
PRE=r'''static std::string segwit(int ver) { std::string d("EPTF\xff\0", 6); d += std::string("\2\0\0\0\0\1\1", 7) + std::string(36, 7) + std::string("\0", 1) + std::string(4, '\xff') + std::string("\1", 1) + std::string("\x10\x27\0\0\0\0\0\0\0", 9); d += std::string("\xfe\xff\xff\xff\xff", 5) + std::string("\x01\x02\x03\x04\x05\x06\x01\0", 8) + std::string(7, 0); static const uint8_t G[33] = {2, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98}; d += ver ? std::string("\x04\x9d\x7c\xb2", 4) : std::string("\x04\xb2\x47\x46", 4); d += std::string(41, 1) + std::string((const char *)G, 33) + std::string("\1\0\2\1", 4) + std::string("\x11\x22\x33\x44", 4); return d; }
'''
SPECS=[
dict(ID="electrum-amount-chunk", PROPERTY="P33", NEEDS="a chunk boundary inside the amount of a segwit input", BREAKS="the bytes of the amount after the cut go to the wrong places", PREAMBLE=PRE,
 EDITS=[(E, "                txInsMeta[i].amount += (((uint64_t)c) << (8*(bytes_read+bytes_parsed-start)));", "                size_t first = bytes_parsed > start ? bytes_parsed : start;\n                txInsMeta[i].amount += (((uint64_t)c) << (8*(bytes_read+bytes_parsed-first)));")],
 DEMO='std::string d = segwit(0); for (size_t k = 1; k < d.size(); k++) { ElectrumTx t; t.parse((const uint8_t *)d.data(), k); t.parse((const uint8_t *)d.data() + k, d.size() - k); CHECK(t.isValid()); CHECK(t.txInsMeta[0].amount == 0x0001060504030201ull); CHECK(t.tx.locktime == 0x44332211); }'),
dict(ID="electrum-nested", PROPERTY="P33", NEEDS="a nested segwit account key (ypub) that matches", BREAKS="the input script of nested segwit inputs is left empty", PREAMBLE=PRE,
 EDITS=[(E, "                tx.signSegwitInput(i, pk, txInsMeta[i].amount, type);", "                tx.signSegwitInput(i, pk, txInsMeta[i].amount);")],
 DEMO='std::string d = segwit(1); ElectrumTx t; t.parse((const uint8_t *)d.data(), d.size()); CHECK(t.isValid()); uint8_t s[32] = {0}, c[32] = {5}; s[31] = 1; HDPrivateKey k(s, c); CHECK(t.sign(k) == 1); CHECK(t.tx.txIns[0].scriptSig.length() == 24); CHECK(t.tx.txIns[0].witness.count() == 2);'),
]
