B = "src/utility/trezor/bignum.c"
# the product of all-ones limbs, checked modulo the small primes 3, 5, 17 through the wide value: q = (k x - r) / p must leave no remainder
SPECS = [
dict(ID="mul-coef-mask", PROPERTY="P30", NEEDS="factors whose product is above 2^526", BREAKS="the quotient estimate is cut to 30 bits: the product is wrong",
 EDITS=[(B, "	uint64_t temp = 0x2000000000000000ull + res[i - 8] - prime->val[0] * (uint64_t)coef;", "	coef &= 0x3FFFFFFFu;\n	uint64_t temp = 0x2000000000000000ull + res[i - 8] - prime->val[0] * (uint64_t)coef;")],
 DEMO='bignum256 k, x, a, b, t; for (int i = 0; i < 9; i++) k.val[i] = x.val[i] = 0x3fffffff; k.val[8] = x.val[8] = 170u << 16; a = x; bn_multiply(&k, &a, &secp256k1.prime); bn_mod(&a, &secp256k1.prime); b = x; t = k; bn_fast_mod(&b, &secp256k1.prime); bn_fast_mod(&t, &secp256k1.prime); bn_multiply(&t, &b, &secp256k1.prime); bn_mod(&b, &secp256k1.prime); CHECK(memcmp(&a, &b, sizeof a) == 0);'),
dict(ID="inverse-zero-limb", PROPERTY="P30", NEEDS="a value with 32 trailing zero bits", BREAKS="the inverse is off by a power of two",
 EDITS=[(B, "			even->a[i] = 0;\n			even->len1--;\n			k += 32;", "			even->a[i] = 0;\n			even->len1--;\n			k += 31;")],
 DEMO='bignum256 x, y; memset(&x, 0, sizeof x); x.val[3] = 12345; y = x; bn_inverse(&y, &secp256k1.prime); bn_multiply(&x, &y, &secp256k1.prime); bn_mod(&y, &secp256k1.prime); bignum256 one; bn_one(&one); CHECK(memcmp(&y, &one, sizeof y) == 0);'),
dict(ID="half-top-carry", PROPERTY="P30", NEEDS="an odd number whose limb 7 and prime limb carry", BREAKS="the half of a number loses the carry into the top limb",
 EDITS=[(B, "		tmp1 += tmp2 >> 1;\n	}\n	x->val[8] = tmp1;", "		tmp1 = j < 7 || x->val[6] ? tmp1 + (tmp2 >> 1) : tmp2 >> 1;\n	}\n	x->val[8] = tmp1;")],
 DEMO='int bad = 0; for (uint32_t a = 0; a < 64; a++) for (uint32_t l = 0; l < 4; l++) { bignum256 x, y; memset(&x, 0, sizeof x); x.val[0] = 1 + 2 * a; for (int i = 1; i < 8; i++) x.val[i] = l & 1 ? 0x3fffffff : 0; x.val[6] = l & 2 ? 0x3fffffff : 1; x.val[7] = 0x3fffffff - a; y = x; bn_mult_half(&y, &secp256k1.prime); bn_lshift(&y); bn_mod(&y, &secp256k1.prime); bn_mod(&x, &secp256k1.prime); bad |= memcmp(&x, &y, sizeof x) != 0; } CHECK(!bad);'),
dict(ID="fastmod-unnormalized", PROPERTY="P30", NEEDS="nine limbs whose fourth uses bit 31 (four times a large limb)", BREAKS="partial reduction drops the top bit of a limb that is not normalized",
 EDITS=[(B, "		temp += 0x1FFFFFFF80000000ull + x->val[j] - prime->val[j] * (uint64_t)coef;\n		x->val[j] = temp & 0x3FFFFFFF;", "		temp += 0x1FFFFFFF80000000ull + x->val[j] - prime->val[j] * (uint64_t)coef;\n		temp &= 0x1FFFFFFFFFFFFFFFull | (j != 4 || x->val[j] < 0xFFFF0000u ? 0x2000000000000000ull : 0);\n		x->val[j] = temp & 0x3FFFFFFF;")],
 DEMO='bignum256 x, y, k; memset(&x, 0, sizeof x); x.val[4] = 0x3fffffff; x.val[0] = 7; y = x; bn_mult_k(&y, 4, &secp256k1.prime); memset(&k, 0, sizeof k); k.val[0] = 4; bn_multiply(&k, &x, &secp256k1.prime); bn_mod(&x, &secp256k1.prime); bn_mod(&y, &secp256k1.prime); CHECK(memcmp(&x, &y, sizeof x) == 0);'),
]
