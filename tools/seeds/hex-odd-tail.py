ID="hex-at-sign"; PROPERTY="P01"
NEEDS="hex text containing the character '@' (just below 'A')"
BREAKS="'@' is decoded as a digit instead of ending the decode"
EDITS=[("src/Conversion.cpp", "    if(c >= 'A' && c <= 'F'){\n        return ((uint8_t)(c-'A'+10)) & 0x0F;", "    if(c >= '@' && c <= 'F'){\n        return ((uint8_t)(c-'A'+10)) & 0x0F;")]
DEMO="""  uint8_t o[4]; CHECK(fromHex("a1b@", 4, o, 4) == 1); CHECK(hexToVal('@') > 15); """
