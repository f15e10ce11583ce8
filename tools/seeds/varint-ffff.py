
ID="varint-ffff"; PROPERTY="P04"
NEEDS="a value of exactly 2^32-1 or 2^16-1 (compact-size class boundary)"
BREAKS="the compact-size length of 0xffff becomes 5 bytes, so the encoding is not canonical and differs from every other implementation"
EDITS=[("src/Conversion.cpp", "    if((num >> 16) == 0){\n        return 3;", "    if(num < 0xffff){\n        return 3;")]
DEMO="""  uint8_t b[9]; CHECK(writeVarInt(0xffff, b, 9) == 3); CHECK(lenVarInt(0xfffe) == 3); CHECK(lenVarInt(0x10000) == 5);"""
