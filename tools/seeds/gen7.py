SPECS = [
dict(ID="mul-top-limb", PROPERTY="P29", NEEDS="a scalar that is a multiple of 2^240", BREAKS="k P is infinity for k = m 2^240",
 EDITS=[("src/utility/trezor/ecdsa.c", "	is_non_zero |= k->val[j];\n	a.val[j] = tmp + 0xffff + k->val[j] - (curve->order.val[j] & is_even);\n	assert((a.val[0] & 1) != 0);\n\n	// special case 0*p:", "	a.val[j] = tmp + 0xffff + k->val[j] - (curve->order.val[j] & is_even);\n	assert((a.val[0] & 1) != 0);\n\n	// special case 0*p:")],
 DEMO='bignum256 k; memset(&k, 0, sizeof k); k.val[8] = 5; curve_point P, Q; point_multiply(&secp256k1, &k, &secp256k1.G, &P); scalar_multiply(&secp256k1, &k, &Q); CHECK(memcmp(&P, &Q, sizeof P) == 0);'),
dict(ID="add-equal", PROPERTY="P29", NEEDS="the sum of a point and itself", BREAKS="P + P gives infinity instead of 2 P",
 EDITS=[("src/utility/trezor/ecdsa.c", "	if (point_is_equal(cp1, cp2)) {\n		point_double(curve, cp2);\n		return;\n	}\n	if (point_is_negative_of(cp1, cp2)) {", "	if (bn_is_equal(&cp1->x, &cp2->x)) {")],
 DEMO='curve_point P = secp256k1.G, Q = secp256k1.G; bignum256 k; memset(&k, 0, sizeof k); k.val[0] = 2; point_add(&secp256k1, &P, &Q); scalar_multiply(&secp256k1, &k, &P); CHECK(memcmp(&P, &Q, sizeof P) == 0);'),
dict(ID="validate-unreduced", PROPERTY="P29", NEEDS="an uncompressed key whose y coordinate is y + p", BREAKS="a second encoding of the same point counts as valid",
 EDITS=[("src/utility/trezor/ecdsa.c", "	if (!bn_is_less(&(pub->x), &curve->prime) || !bn_is_less(&(pub->y), &curve->prime)) {", "	if (!bn_is_less(&(pub->x), &curve->prime)) {")],
 DEMO='bignum256 x, y; int found = 0; memset(&x, 0, sizeof x); for (uint32_t i = 1; i < 4000 && !found; i++) { bignum256 t, c; memset(&t, 0, sizeof t); t.val[0] = i; /* y = i: x^3 = y^2 - 7, cube root is power (p+2)/9 */ c = t; bn_multiply(&t, &c, &secp256k1.prime); bn_subi(&c, 7, &secp256k1.prime); bn_mod(&c, &secp256k1.prime); bignum256 e = secp256k1.prime; bn_addi(&e, 2); bn_normalize(&e); uint32_t r; bn_divmod58(&e, &r); e = secp256k1.prime; bn_addi(&e, 2); bn_normalize(&e); uint64_t rem = 0; for (int j = 8; j >= 0; j--) { uint64_t v = (rem << 30) | e.val[j]; e.val[j] = (uint32_t)(v / 9); rem = v % 9; } bignum256 acc; bn_one(&acc); for (int b = 255; b >= 0; b--) { bignum256 a2 = acc; bn_multiply(&a2, &acc, &secp256k1.prime); if ((e.val[b / 30] >> (b % 30)) & 1) bn_multiply(&c, &acc, &secp256k1.prime); } bn_mod(&acc, &secp256k1.prime); curve_point P; P.x = acc; P.y = t; if (ecdsa_validate_pubkey(&secp256k1, &P)) { x = acc; y = t; found = 1; } } CHECK(found); curve_point P; P.x = x; P.y = y; bn_add(&P.y, &secp256k1.prime); bn_normalize(&P.y); CHECK(!ecdsa_validate_pubkey(&secp256k1, &P));'),
]
