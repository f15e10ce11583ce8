ID="b64-urlsafe-tail"; PROPERTY="P03"
NEEDS="url-safe base64 text whose '_' stands in the last character before the padding"
BREAKS="decoding the url-safe form of data that ends in such a digit fails although the encoder produced it"
EDITS=[("src/Conversion.cpp", "            if(c=='_' && (flags & BASE64_URLSAFE)){", "            if(c=='_' && (flags & BASE64_URLSAFE) && i < 3){")]
DEMO="""  uint8_t d[3] = {1, 2, 0xff}, o[3]; std::string s = toBase64(d, 3, BASE64_URLSAFE); CHECK(fromBase64(s, o, 3, BASE64_URLSAFE) == 3 && !memcmp(d, o, 3));"""
