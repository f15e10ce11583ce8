ID="bech32-padding"; PROPERTY="P05"
NEEDS="a valid-checksum address whose padding bits are not zero"
BREAKS="addresses with non-zero padding bits are accepted, so one program has several addresses"
EDITS=[("src/utility/segwit_addr.c", "} else if (((val << (outbits - bits)) & maxv) || bits >= inbits) {", "} else if (bits >= inbits) {")]
PREAMBLE="extern \"C\" int bech32_encode(char *output, const char *hrp, const uint8_t *data, size_t data_len);\n"
DEMO="""  uint8_t d[53]; for (int i = 0; i < 53; i++) d[i] = (i * 7 + 1) & 31; d[0] = 0; char o[100]; int v; uint8_t p[40]; size_t l;
  d[52] = 0x10; CHECK(bech32_encode(o, "bc", d, 53)); CHECK(segwit_addr_decode(&v, p, &l, "bc", o) == 1);
  d[52] = 0x11; CHECK(bech32_encode(o, "bc", d, 53)); CHECK(segwit_addr_decode(&v, p, &l, "bc", o) == 0);"""
