"""The properties; 'python3 props.py' regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = []
TECH = "symbolic execution of the LLVM IR of /repo's code; Z3 decides every branch, memory access and assertion for all inputs within the bounds"
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), level="model_checking"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None), _note=note, _level=level))

prop("P01", "Hex and binary text codecs are exact inverses and never overrun",
  "Hex encoding writes exactly two lowercase digits per byte (high nibble first), binary encoding eight 0/1 digits, for every byte array; decoding returns the bytes of the digits read, so decode(encode(x)) = x for arrays of any length. Encoding into a buffer that is too small returns 0, decoding never reports or writes more bytes than the output buffer holds, a hex decode stops at the first character that is not a hex digit and a binary decode refuses any character other than 0 and 1. Unused output space is zero-filled and the input is left untouched.",
  ["inputs"], "all byte arrays and texts, all buffer capacities", "The existing tests encode and decode a couple of fixed strings; capacity edges, odd lengths, foreign characters and long strings are never exercised.",
  ["src/Conversion.cpp", "src/Conversion.h"], [("toHex/fromHex", "src/Conversion.cpp"), ("toBin/fromBin", "src/Conversion.cpp"), ("hexToVal", "src/Conversion.cpp")],
  "every array of up to 5 bytes and every text of up to 9 characters with every capacity around the needed one, plus 300-byte arrays with a symbolic byte; longer fully symbolic inputs are outside the bound")
prop("P02", "Base58 and Base58Check encode numbers faithfully and reject bad checksums",
  "Base58 text denotes the same number as the byte array, with one '1' per leading zero byte and no other leading '1', and decoding restores exactly the original bytes, stopping at the first character outside the alphabet. Base58Check appends the first four bytes of the double SHA-256 of the payload; decoding returns the payload only when all four match and otherwise returns 0. A buffer that cannot hold the result yields 0, and nothing outside the given buffers is read or written.",
  ["inputs"], "all byte arrays, texts and output capacities", "Tests decode a few fixed addresses; leading zero runs, checksum mismatches in each byte and too-small buffers are not covered.",
  ["src/Conversion.cpp"], [("toBase58/fromBase58", "src/Conversion.cpp"), ("toBase58Check/fromBase58Check", "src/Conversion.cpp")],
  "fully symbolic arrays/texts of up to 2-3 symbols, long arrays (25, 82, 300 bytes) with a symbolic byte and up to 290 leading zeros; checksum logic with SHA-256 compression as an uninterpreted function (its own check is separate)")
prop("P03", "Base64 and Base43 codecs are exact inverses and refuse malformed text",
  "Base64 encoding is RFC 4648 (with the URL-safe and no-padding variants), base43 text denotes the same number as the bytes with leading zeros kept, the advertised lengths are sufficient and decode(encode(x)) = x for every byte array. Base64 text with a foreign character, a wrong length or an impossible digit count is refused with 0. A buffer that cannot hold the result yields 0 and nothing outside the given buffers is read or written.",
  ["inputs"], "all byte arrays and texts, all flags, all capacities", "Tests encode and decode fixed strings only.",
  ["src/Conversion.cpp"], [("toBase64/fromBase64", "src/Conversion.cpp"), ("toBase43/fromBase43", "src/Conversion.cpp")],
  "base64: all arrays up to 6 bytes and texts up to 8 characters under all four flag combinations; base43: as base58; text with '=' in the middle, and padded text given to the no-padding decoder, are left unspecified")
prop("P04", "Integer and compact-size encodings are canonical and invertible",
  "Big- and little-endian conversions read and write exactly the low n bytes of the value in the stated order, with zeros above the eighth byte. The compact-size length and encoding of every 64-bit number is the canonical 1/3/5/9-byte one, reading it back gives the number, a buffer that is too small is refused with 0 and reading a truncated encoding gives 0.",
  ["inputs"], "all 64-bit values, all byte arrays", "No test covers compact sizes or endianness conversions.",
  ["src/Conversion.cpp"], [("lenVarInt/readVarInt/writeVarInt", "src/Conversion.cpp"), ("littleEndianToInt/intToBigEndian", "src/Conversion.cpp")],
  "all 2^64 values and all byte arrays of up to 10 bytes: complete")
prop("P05", "Segwit addresses follow BIP173 exactly and corrupted ones are refused",
  "Encoding a witness version (0..16) and program (2..40 bytes, 20 or 32 for version 0) gives exactly the BIP173 bech32 address of that human-readable prefix; anything else is refused. Decoding accepts a text exactly when it is a valid BIP173 address of the expected prefix (checksum, alphabet, no mixed case, zero padding bits, program length and version rules) and returns the version and program it denotes, so decoding inverts encoding and altered characters are detected. Text of any length and content, with the separator anywhere or missing, never makes the decoder touch memory outside its buffers.",
  ["inputs"], "all versions, programs and texts", "No test covers the bech32 code at all; a wrong generator constant, case rule or padding rule shows only on particular inputs.",
  ["src/utility/segwit_addr.c"], [("segwit_addr_encode/decode", "src/utility/segwit_addr.c"), ("bech32_encode/decode, convert_bits", "src/utility/segwit_addr.c")],
  "encoding: every program of 2, 3, 20, 32, 40 bytes, every version; decoding: every single program byte through a round trip, valid addresses with two adjacent arbitrary characters, arbitrary data parts of up to 9 characters, arbitrary texts of up to 10 characters and texts of up to 300 characters with the separator anywhere")

prop("P06", "Addresses and output scripts denote each other on every network",
  "For every hash and every supported network, the script built from an address is exactly the standard output script (P2PKH, P2SH, witness version 0) of the payload the address carries, and the address of a standard script is the address of its payload with that network's prefix; the two directions invert each other. A script of any other form has no address, text that is not an address of a known network gives an empty script, and the addresses a public or private key reports (legacy, native and nested segwit) are those of its own hashes on its network; an HD key's address is of the kind its type says (native segwit when the type names none of the three).",
  ["inputs"], "all payloads, networks, scripts and address texts", "Tests use a handful of mainnet/testnet addresses; other networks, odd lengths, near-miss scripts and malformed text are not covered.",
  ["src/Script.cpp", "src/Bitcoin.cpp", "src/Networks.cpp"], [("Script(address)", "src/Script.cpp"), ("Script::address", "src/Script.cpp"), ("PublicKey::legacyAddress/segwitAddress/nestedSegwitAddress", "src/Bitcoin.cpp")],
  "all payloads of the four address kinds on all networks and all scripts of selected lengths up to 35 bytes, with the text codecs (decided by P02/P05) replaced by an injective text form and the hashes as uninterpreted functions; real codecs on one payload byte; arbitrary text of up to 5 characters and long texts of one repeated character")
prop("P07", "Script templates, pushes and type detection are exact",
  "Scripts built from keys, hashes, other scripts, m-of-n multisignature (sorted or not, 1 <= m <= n <= 16) and signatures are byte for byte the standard templates; pushing data, keys, signatures or scripts appends exactly the right opcode, length and bytes and either happens completely or not at all; a script never exceeds 10000 bytes; type() reports a template exactly for the scripts that match it.",
  ["inputs"], "all keys, hashes, script contents and push lengths", "Tests build a few fixed scripts; the push length classes (75/76/255/256), full scripts and key order are not covered.",
  ["src/Script.cpp"], [("Script::push", "src/Script.cpp"), ("Script::type", "src/Script.cpp"), ("multi/sortedmulti", "src/Script.cpp")],
  "symbolic keys, hashes and contents; lengths 0..520 at every push class boundary, script limit 9998..10000, 1..17 keys (sorted: up to 3 keys quick, 4 thorough)")
prop("P08", "Streaming parsers give the same result for every chunking, and never too early",
  "Scripts, witnesses, transaction inputs and outputs, DER signatures, Schnorr signatures and scalars parse to the same status, the same bytes consumed and the same object whether the bytes arrive at once, in chunks cut anywhere (also empty chunks), as hex text, or in an object that was used before and reset. A truncated object is reported as incomplete and consumes everything, never as done; data that is malformed (over-long or non-canonical lengths, non-strict DER) is never reported as parsed; a complete object consumes exactly its own bytes and serializes back to them; no input makes the parser touch foreign memory or leak.",
  ["inputs", "interleavings"], "all byte strings and all ways to cut them", "Tests parse whole well-formed objects; cuts inside a length prefix or an integer, empty chunks and malformed lengths are never tried.",
  ["src/BaseClasses.cpp", "src/Script.cpp", "src/Transaction.cpp", "src/Bitcoin.cpp", "src/BitcoinCurve.cpp"], [("ParseByteStream", "src/BaseClasses.cpp"), ("Script/Witness::from_stream", "src/Script.cpp"), ("TxIn/TxOut::from_stream", "src/Transaction.cpp"), ("Signature::from_stream", "src/Bitcoin.cpp")],
  "every byte string of the stated lengths (0-6 bytes for scripts, up to 5 for witnesses, 0-45 for inputs, 0-12 for outputs, 0-6 arbitrary and all length classes structured for DER), every single cut and byte-by-byte delivery; 3-, 5- and 9-byte lengths with 250-260 byte bodies; element lengths above 3 in witnesses of 3 or more bytes are outside, except the long form")
prop("P09", "Transactions parse and serialize without loss, in any chunks",
  "Parsing a transaction (legacy or segwit) in one piece, cut anywhere, or into a reused object yields exactly the version, outpoints, scripts, sequences, amounts, witnesses and locktime in the bytes, with the right counts and segwit flag, and serializing it gives back exactly the same bytes with length() telling their number. A truncated transaction is incomplete, a malformed one is not reported as parsed. Transactions put together from inputs, outputs and constructors, copied, assigned or extended serialize to the same bytes as if parsed, including more than 252 inputs or outputs, and leave nothing allocated behind.",
  ["inputs", "interleavings", "histories"], "all field values, contents and cuts of transactions of the given shapes", "Tests parse two fixed transactions; optional parts in unusual combinations, cuts, reuse and large counts are not covered.",
  ["src/Transaction.cpp"], [("Tx::from_stream/to_stream", "src/Transaction.cpp"), ("TxIn/TxOut", "src/Transaction.cpp"), ("Tx copy, addInput, addOutput", "src/Transaction.cpp")],
  "shapes of 0-3 inputs and outputs with script lengths {0,1,2,22,25,34,107,252,253,300} and 0-2 witness elements, all contents symbolic; every cut of the small shapes; each structural byte set to all 256 values; every byte string of up to 12 bytes with counts up to 2; counts up to 254 for serialization; a witness marker without any witness is outside")
prop("P10", "Serializing any slice into any buffer gives exactly those bytes",
  "For every serializable object, serialize(buffer, length, offset) writes exactly the bytes of the encoding from the offset on, as many as fit, in raw or hex form, returns their number, zero-fills the rest and writes nothing outside the buffer, for every offset (also past the end) and capacity; string forms agree with it. Concatenated slices are therefore the encoding.",
  ["inputs"], "all offsets, capacities and contents", "Tests only serialize whole objects into large buffers.",
  ["src/BaseClasses.cpp", "src/Transaction.cpp", "src/Script.cpp", "src/Bitcoin.cpp", "src/BitcoinCurve.cpp"], [("Streamable::serialize", "src/BaseClasses.cpp"), ("to_stream of every class", "src/")],
  "every offset from 0 to two past the end, capacities 0, 1, 3, exact, one more, for scripts, witnesses, inputs, outputs, keys, signatures, scalars and five transaction shapes with symbolic contents")
prop("P11", "Transaction ids hash exactly the right serialization",
  "The transaction hash is the double SHA-256 of the serialization without marker, flag and witnesses, the txid is its byte reverse in raw and hex form; the witness hash and wtxid are the same of the complete serialization. Computing them leaves the transaction unchanged.",
  ["inputs"], "all transaction contents of the given shapes", "Tests compare one or two known ids.",
  ["src/Transaction.cpp"], [("Tx::hash/txid/whash/wtxid", "src/Transaction.cpp")],
  "eight shapes with all contents symbolic; SHA-256's compression is an uninterpreted function, so the equality holds for the byte stream that is hashed")
prop("P12", "Legacy signature hashes commit to exactly what the sighash type says",
  "The legacy signature hash of every input with SIGHASH_ALL, NONE and SINGLE is the double SHA-256 of the standard preimage: the transaction with all input scripts empty except the given script at the signed input, sequences of other inputs zeroed for NONE and SINGLE, outputs all / none / up to the signed index with earlier ones blanked, followed by the four-byte type; SINGLE without a matching output gives the number one. The transaction is unchanged.",
  ["inputs"], "all transaction contents, script codes, input indices and types", "Tests never compute a signature hash other than ALL.",
  ["src/Transaction.cpp"], [("Tx::sigHash", "src/Transaction.cpp")],
  "six shapes, every input index, all three types, script codes of 0, 1, 25, 107, 252, 253 bytes, all contents symbolic; SHA-256 compression uninterpreted; ANYONECANPAY is not offered by the library")
prop("P13", "Segwit signature hashes follow BIP143 for every type",
  "The segwit signature hash of every input with SIGHASH_ALL, NONE and SINGLE is the double SHA-256 of the BIP143 preimage: version, hash of outpoints, hash of sequences (zero for NONE and SINGLE), the outpoint, script code, amount and sequence of the signed input, hash of the outputs (all, none, or the matching one, zero when there is none), locktime and type. The transaction is unchanged.",
  ["inputs"], "all transaction contents, amounts, script codes, input indices and types", "Tests cover only ALL on one or two transactions.",
  ["src/Transaction.cpp"], [("Tx::sigHashSegwit", "src/Transaction.cpp"), ("hashPrevouts/hashSequence/hashOutputs", "src/Transaction.cpp")],
  "as P12, with the amount symbolic")
prop("P14", "Signing an input signs the right hash and fills in exactly the right data",
  "signInput and signSegwitInput return the ECDSA signature of the signature hash of that input, script, amount and type, and write exactly the unlocking data of the script kind: scriptSig with signature, key and redeem script for legacy and P2SH, empty or nested scriptSig and the witness for P2WPKH, P2WSH and their P2SH forms, each signature in DER followed by the requested type byte. Other inputs, outputs, version and locktime do not change.",
  ["inputs"], "all transaction contents, amounts, redeem scripts, input indices and types", "Tests sign two fixed transactions with SIGHASH_ALL.",
  ["src/Transaction.cpp", "src/Script.cpp"], [("Tx::signInput/signSegwitInput", "src/Transaction.cpp"), ("Script/Witness::push(Signature)", "src/Script.cpp")],
  "three shapes, every index, all three types, redeem scripts of 1, 34, 107, 253, 300 bytes, one concrete key (compressed or not); SHA-256 compression and the ECDSA signature (as a function of key and digest) uninterpreted")
prop("P15", "Private keys, WIF text and ECDH shared secrets are exact",
  "The WIF text of every secret, network and compression flag is the standard one, reading it back gives the same secret, flag, network and public key, and text that is not a well formed WIF of a known network (length, prefix, suffix byte, secret zero or not below the group order) is refused and leaves an invalid key, also in an object that held another key. A key made from bytes, from a scalar, by setSecret or by parsing 32 bytes (reduced modulo the order, zero refused) has exactly that secret and the matching public key. The ECDH secret is the x coordinate, or the SHA-256 of both coordinates, of secret times point.",
  ["inputs"], "all secrets, payloads, networks, flags and points", "Tests convert one or two fixed keys; malformed payloads and edge secrets are not covered.",
  ["src/Bitcoin.cpp", "src/Bitcoin.h"], [("PrivateKey::wif/fromWIF", "src/Bitcoin.cpp"), ("PrivateKey::from_stream", "src/Bitcoin.cpp"), ("PrivateKey::ecdh", "src/Bitcoin.cpp")],
  "all 256-bit secrets and all payloads of 0, 1, 32-35 bytes; base58check replaced by an injective text form (P02), multiplication by the generator and of points as uninterpreted functions with results on the curve")
prop("P16", "SEC public keys are accepted exactly when they are points on the curve",
  "Public keys parse from compressed or uncompressed SEC bytes, at once, cut anywhere or byte by byte, to the point they denote; wrong prefixes, coordinates not below the field prime and points off the curve are refused, truncated keys are incomplete. Serializing returns the parsed bytes, parity and x coordinate are those of the point and the x-only form selects the even point.",
  ["inputs", "interleavings"], "all byte strings and cuts", "Tests parse one valid key; invalid prefixes, off-curve points and chunked input are not covered.",
  ["src/BitcoinCurve.cpp", "src/BitcoinCurve.h", "src/utility/trezor/ecdsa.c"], [("ECPoint::from_stream/to_stream", "src/BitcoinCurve.cpp"), ("ecdsa_read_pubkey", "src/utility/trezor/ecdsa.c"), ("from_x", "src/BitcoinCurve.h")],
  "all byte strings of 0-2, 32-34, 64-66 bytes; curve membership and square root as uninterpreted functions of x (so every pattern of on/off curve is covered)")
prop("P17", "BIP32 key derivation follows the standard for every key and index",
  "A master key is the two halves of HMAC-SHA512 with key 'Bitcoin seed'. Child keys of private keys (normal and hardened) and of public keys (normal) have exactly the secret or point, chain code, parent fingerprint, child number and depth BIP32 prescribes; the public half of a private key carries the same data, so deriving then neutering agrees with the definition used for public derivation. Script type and network follow the purpose, coin type and script branches (44h, 49h, 84h, 48h, 45h; 0h, 1h; 1h, 2h). A hardened child of a public key, or anything below it, is refused. The parent does not change.",
  ["inputs"], "all secrets, chain codes, indices and metadata", "Tests derive a few fixed paths from one mnemonic; a wrong byte order or carry on particular keys, indices with the top bit and hardened public derivation are not covered.",
  ["src/HDWallet.cpp"], [("HDPrivateKey::child/derive/fromSeed", "src/HDWallet.cpp"), ("HDPublicKey::child/derive", "src/HDWallet.cpp"), ("HDPrivateKey::xpub", "src/HDWallet.cpp")],
  "all keys, chain codes and 32-bit indices at depths 0-3; hash compression functions and curve operations uninterpreted; the cases of probability below 2^-127 (left half not below the order, zero child) and depth 255 are excluded")
prop("P18", "Extended keys serialize and parse exactly, and malformed ones are refused",
  "The binary and text forms of extended private and public keys carry exactly the prefix of the network and script type, depth, parent fingerprint, child number, chain code and key; reading them back, at once or in two parts, gives the same key, type and network. Text or bytes with an unknown prefix, a wrong key byte, a secret of zero or not below the group order, a point off the curve or a payload that is not 78 bytes yield an invalid key, without touching memory outside the buffers.",
  ["inputs"], "all key data, prefixes and payload lengths", "Tests parse a few fixed xpubs; malformed keys are not covered.",
  ["src/HDWallet.cpp", "src/Networks.cpp"], [("HDPrivateKey::from_stream/to_bytes", "src/HDWallet.cpp"), ("HDPublicKey::from_stream/to_bytes", "src/HDWallet.cpp"), ("from_str", "src/HDWallet.cpp")],
  "all key data with every prefix; every 4-byte prefix, every key byte, every 32-byte key body; payload lengths 0, 4, 45, 77-80; cuts at the field boundaries; text codec and curve operations abstracted as in P15")
prop("P19", "Derivation paths denote exactly the written indices or nothing",
  "Deriving along a text path (optional 'm/' in front, optional '/' at the end, decimal indices below 2^31, h or ' for hardened) derives exactly the written indices in order; an empty path or 'm' is the key itself. Any other text (missing or too large numbers, doubled slashes, foreign characters, a marker without a number, hardened steps for a public key) yields an invalid key and never reads outside the text.",
  ["inputs"], "all path texts", "Tests use a handful of well formed paths.",
  ["src/HDWallet.cpp"], [("HDPrivateKey::derive(path)", "src/HDWallet.cpp"), ("HDPublicKey::derive(path)", "src/HDWallet.cpp")],
  "all texts of up to 3 characters (4 thorough) plus 35 longer ones chosen symbolically; the single derivation step is a recorder here (it is decided by P17)")
prop("P20", "Scalar addition, subtraction, negation and comparison are exact modulo the order",
  "For all scalars below the group order, sum, difference and negative are the exact results modulo the order (in particular the negative of zero is zero and results are always below the order), adding or subtracting a 32-bit integer included, comparison is that of the numbers and the operands do not change. Parsing 32 bytes reduces them modulo the order and refuses zero.",
  ["inputs"], "all pairs of 256-bit scalars, all 32-bit integers", "Tests add two fixed keys; carries between limbs and the final reduction depend on rare values.",
  ["src/BitcoinCurve.cpp", "src/BitcoinCurve.h", "src/utility/trezor/bignum.c"], [("ECScalar operators", "src/BitcoinCurve.cpp"), ("bn_addmod, bn_mod, bn_subtract, bn_is_less", "src/utility/trezor/bignum.c")],
  "all values for sum, negation, integer operands and order; the difference for all values as sum with the negative, and directly for all values differing in a 32-bit field; multiplication and division are outside (256-bit nonlinear arithmetic is out of the solver's reach)")
prop("P21", "PSBTs parse into exactly what they say, in any chunks, or are refused",
  "A PSBT parses, in one piece, in chunks cut anywhere or into a reused object, into exactly its unsigned transaction and, per input and output, the known previous output (from the witness utxo, or from the previous transaction whose hash and output index match the outpoint), redeem and witness scripts, key derivations and partial signatures (one per key, with their type) that it contains; unknown pairs are skipped. Wrong magic bytes, a missing or malformed transaction, a previous transaction with another hash or too few outputs, malformed keys, paths, outputs or signatures are never reported as parsed; truncated data is incomplete. Copies are independent and no memory is leaked or accessed out of bounds, whatever the input.",
  ["inputs", "interleavings", "histories"], "all field contents of the given layouts, all cuts, all short byte strings", "Tests parse one or two valid PSBTs; malformed pairs, cuts, reuse and copies are never tried.",
  ["src/PSBT.cpp", "src/PSBT.h"], [("PSBT::from_stream", "src/PSBT.cpp"), ("PSBT::add", "src/PSBT.cpp"), ("PSBT copy, assignment", "src/PSBT.cpp")],
  "53 layouts of pairs with symbolic contents (every kind of pair with valid and near-miss key and value lengths), every cut of three of them, byte-wise delivery, reuse after a parse stopped in 8 places, copies; every byte string of up to 5 bytes and 4 bytes after the magic; curve membership and SHA-256 compression uninterpreted; repeated pairs of the same key and agreement of both utxo kinds are not specified")
prop("P22", "PSBT serialization is exact for every slice and text form",
  "A PSBT serializes to the magic bytes, the unsigned transaction and per input the partial signatures it holds, each section closed by a zero byte; length() is that length, every slice into every buffer gives exactly those bytes, parsing the result gives the same again, and the base64 text form is the base64 of the bytes in both directions, malformed or truncated text never being reported as complete.",
  ["inputs"], "all contents, offsets and capacities", "Tests only serialize whole PSBTs without signatures of several kinds.",
  ["src/PSBT.cpp", "src/BaseClasses.cpp"], [("PSBT::to_stream", "src/PSBT.cpp"), ("PSBT::length", "src/PSBT.cpp"), ("parseBase64/toBase64", "src/PSBT.cpp")],
  "layouts without, with one and with two partial signatures (compressed and uncompressed key), every offset (two signatures: offsets 170-219 quick, all thorough), capacities 0, 1, 3, exact, one more; base64 with a few symbolic bytes")
prop("P23", "Signing a PSBT signs exactly the inputs the key owns, with the right hash",
  "sign(root) adds a signature for exactly those derivations whose fingerprint is root's and whose public key is the one root derives along the path, and returns their number. Each signature is of the derived key over the SIGHASH_ALL hash that fits the input: BIP143 with the witness script, BIP143 with the key's P2PKH script for P2WPKH and nested P2WPKH, legacy with the redeem script or with the output script otherwise. It does not depend on the order of the paths or on earlier inputs, signing again changes nothing, and everything else in the PSBT stays as it was.",
  ["inputs", "histories"], "all transaction contents, scripts, paths, keys and fingerprints", "Tests sign two fixed PSBTs of the simple kinds.",
  ["src/PSBT.cpp"], [("PSBT::sign", "src/PSBT.cpp"), ("Tx::sigHash, sigHashSegwit", "src/Transaction.cpp")],
  "one or two inputs with up to two derivations of up to two steps (three thorough); symbolic transactions, scripts and keys; paths symbolic for single derivations, chosen from all combinations of two indices per step where paths of two derivations are compared; child derivation, ECDSA, curve and hash primitives uninterpreted (decided elsewhere)")
prop("P24", "PSBT fee and ownership of outputs are computed exactly",
  "fee() is the sum of the input amounts minus the sum of the output amounts, and 0 when an input amount is unknown or the outputs exceed the inputs; sums beyond 64 bits never wrap into a wrong fee. isMine(i, key) is true exactly when output i exists and one of its derivations carries the public key that the given extended key derives along that path.",
  ["inputs"], "all amounts, paths and keys", "Tests check the fee of one PSBT and never ask for ownership.",
  ["src/PSBT.cpp"], [("PSBT::fee", "src/PSBT.cpp"), ("PSBT::isMine", "src/PSBT.cpp")],
  "0-2 inputs and outputs with all amounts; up to two derivations per output, paths of up to two steps, private and public extended keys, output numbers up to one past the end; child derivation uninterpreted (decided by P17)")
prop("P25", "BIP39 mnemonics and seeds follow the standard and bad ones are refused",
  "Entropy of 16, 20, 24, 28 or 32 bytes becomes exactly the BIP39 words of its bits followed by the checksum bits, and mnemonicToEntropy gives the entropy back; other lengths give no mnemonic. generateMnemonic uses all of the entropy it is given, for 12, 15, 18, 21 and 24 words. checkMnemonic accepts a text exactly when it has such a number of single-space separated list words and the right checksum. An output buffer that is too small is never overrun. The seed is PBKDF2-HMAC-SHA512 (2048 rounds, salt 'mnemonic' plus passphrase) for every mnemonic and passphrase, whatever was computed before (mnemonic_to_seed uses at most the first 256 characters of the passphrase), and the HD key of a mnemonic is the master key of that seed.",
  ["inputs", "histories"], "all entropies, texts and passphrases", "Tests use one or two fixed mnemonics; single wrong words, word counts of 15 and 21, checksum bits and long passphrases are never tried.",
  ["src/Bitcoin.cpp", "src/utility/trezor/bip39.c", "src/HDWallet.cpp"], [("generateMnemonic/mnemonicFromEntropy/mnemonicToEntropy/checkMnemonic", "src/Bitcoin.cpp"), ("mnemonic_from_data, mnemonic_check, mnemonic_to_seed", "src/utility/trezor/bip39.c"), ("HDPrivateKey::fromMnemonic", "src/HDWallet.cpp")],
  "all five lengths with one or two symbolic entropy bytes at several positions (all positions thorough); all texts of up to 20 characters, one word arbitrary inside mnemonics of every length, 12 wrong word counts; the whole 2048-round seed computation with symbolic mnemonic and passphrase bytes of up to 215/257 characters, hash compression functions uninterpreted (decided by P26); non-ASCII normalisation and master secrets outside 1..n-1 are outside")
prop("P26", "Hashes, HMAC, PBKDF2 and RFC6979 nonces equal their specifications",
  "SHA-256, SHA-512, RIPEMD-160, double SHA-256, HASH160, tagged hashes, HMAC-SHA256/512, PBKDF2 and the RFC6979 generator give exactly what their standards say for every message, key, salt and iteration count, in one call or fed in pieces of any size through the streaming interface, and a hash object can be used again after it has finished.",
  ["inputs", "histories"], "all messages, keys and ways of feeding them", "Tests hash a few short strings; block-boundary lengths, long keys and piecewise feeding are not covered.",
  ["src/Hash.cpp", "src/utility/trezor/sha2.c", "src/utility/trezor/ripemd160.c", "src/utility/trezor/hmac.c", "src/utility/trezor/pbkdf2.c", "src/utility/trezor/rfc6979.c"], [("sha256_Transform, sha512_Transform, ripemd160_process", "src/utility/trezor"), ("HashAlgorithm classes", "src/Hash.cpp"), ("hmac_*, pbkdf2_*, rfc6979", "src/utility/trezor")],
  "compression functions: all states and blocks (complete); messages of 12 lengths around the block boundaries up to 257 bytes and keys of 7 lengths up to 260 bytes with all contents, every cut of messages of 70-260 bytes; PBKDF2 with up to 6 rounds and 3 blocks; 3 successive RFC6979 outputs; whole messages use the compression functions uninterpreted")
prop("P27", "ECDSA signing is deterministic and low-S; verification decides the equation",
  "PrivateKey::sign uses the first acceptable RFC6979 nonce of the secret and the hash: r is the nonce point's x coordinate modulo the group order, s solves s k = hash + r secret and is in the lower half of the range, and the recovery index describes the point that belongs to (r, s); it is the same on every call and leaves the key alone. PublicKey::verify accepts exactly when r and s are between 1 and the order minus 1, the key is a point of the curve and x((hash/s) G + (r/s) P) equals r modulo the order (a hash that is 0 modulo the order is never accepted).",
  ["inputs"], "all secrets, hashes, keys and signatures", "Tests sign and verify a few fixed hashes; high S, nonces to reject, x coordinates above the order, out-of-range r and s and points off the curve do not occur in them.",
  ["src/Bitcoin.cpp", "src/utility/trezor/ecdsa.c", "src/utility/trezor/rfc6979.c"], [("PrivateKey::sign, PublicKey::verify", "src/Bitcoin.cpp"), ("ecdsa_sign_digest, ecdsa_verify_digest", "src/utility/trezor/ecdsa.c")],
  "all 256-bit secrets, hashes, points, r and s; up to one rejected nonce (two thorough); modular products and inverses as an abstract commutative group, point multiplication, addition and the hash compression function opaque but functional (decided elsewhere or listed in DESIGN.md)")
prop("P28", "Schnorr signatures follow BIP340 and ECDH gives the product point",
  "schnorr_sign makes the BIP340 signature with the nonce tagged_hash('BIP0340/nonce', d || x(P) || hash), where d and the nonce are negated when their point has odd y: r is x(R), s = k + tagged_hash('BIP0340/challenge', r || x(P) || hash) d modulo the order; the key is unchanged. schnorr_verify accepts exactly when r is an x coordinate on the curve, s is below the order, the key is a point of the curve and s G = R + e P with both points lifted to even y, so neither (r, -s) nor any other variation of a signature is accepted, and it returns for every key and signature. ecdh gives the x coordinate of secret times point, or SHA-256 of both coordinates.",
  ["inputs"], "all secrets, hashes, keys and signatures", "Tests sign and verify one or two fixed messages.",
  ["src/Bitcoin.cpp", "src/BitcoinCurve.cpp", "src/Hash.cpp"], [("PrivateKey::schnorr_sign, PublicKey::schnorr_verify, PrivateKey::ecdh", "src/Bitcoin.cpp"), ("ECScalar and ECPoint operators", "src/BitcoinCurve.cpp")],
  "all 256-bit secrets, hashes, points, r and s except nonce and challenge hashes outside 1..n-1 (probability below 2^-127) and s = 0; products modulo the order as an abstract commutative group, point operations and the hash compression function opaque but functional; ECDH with points of the curve")

prop("P29", "Point arithmetic is the group law of secp256k1 for every point and scalar",
  "The constants are those of secp256k1 and the table of multiples holds (2j+1) 16^i G. point_add and point_double give the sum of any two points of the curve: equal points are doubled, opposite ones give infinity, infinity is neutral, the first operand is unchanged and the result is reduced. scalar_multiply and point_multiply give exactly k G and k P for every scalar below the order, zero included, through projective sums that are correct for every scaling. Decompression gives the root with the asked parity, and a point counts as valid exactly when its coordinates are reduced and satisfy the curve equation.",
  ["inputs"], "all points of the curve (infinity, equal and opposite ones included), all scalars, all projective scalings", "Tests derive a few dozen fixed keys; special cases of the formulas (doubling, cancellation, zero windows, carries between limbs) depend on particular points and scalars.",
  ["src/utility/trezor/ecdsa.c", "src/utility/trezor/secp256k1.c", "src/utility/trezor/secp256k1.table", "src/utility/trezor/bignum.c"], [("point_add, point_double, point_jacobian_add, point_jacobian_double, point_multiply, scalar_multiply, uncompress_coords, ecdsa_validate_pubkey", "src/utility/trezor/ecdsa.c"), ("secp256k1.cp", "src/utility/trezor/secp256k1.table")],
  "formulas over the curves y^2 = x^3 + b of the fields of 7 and 31 elements, all points (products, inverses and partial reduction are exact stubs of the real representation, square root, halving, subtraction and normalisation the real code); for 31 elements b and the projective scaling are fixed per job; recoding of scalars with point operations on logarithms, four free bits at a time at chosen positions over fixed patterns; all 512 table entries with 512-bit arithmetic")
prop("P30", "Field and scalar arithmetic is exact for both 256-bit moduli",
  "For the field prime and the group order: bn_multiply gives a number congruent to the product of any two numbers below 178 * 2^256, normalized and below twice the modulus, and leaves its first operand alone; bn_fast_mod partly reduces any nine 32-bit limbs without changing the residue; bn_addmod, bn_mult_k (factors 0 to 4), bn_mult_half and bn_subtractmod, bn_subi give the sum, small multiple, half and difference of numbers below 2^264 (what is subtracted or halved partly reduced) modulo the modulus in the promised range (also when the result overwrites an operand); bn_mod takes a partly reduced number to its residue below the modulus; bn_inverse gives the reduced inverse; bn_sqrt raises to the power (p + 1) / 4; shifts and increments are exact. No internal assertion fails.",
  ["inputs"], "all operands within the documented ranges, limb by limb", "A dropped carry or a wrong estimate of a quotient shows for particular limbs only (probability 2^-30 and less); tests compute a few dozen signatures.",
  ["src/utility/trezor/bignum.c"], [("bn_multiply, bn_multiply_long, bn_multiply_reduce_step", "src/utility/trezor/bignum.c"), ("bn_fast_mod, bn_mod, bn_mult_half, bn_mult_k, bn_addmod, bn_subtractmod, bn_subi", "src/utility/trezor/bignum.c"), ("bn_inverse, bn_sqrt", "src/utility/trezor/bignum.c")],
  "all operands for everything but inversion and roots (bit-vector terms translated to linear integer arithmetic with bounded products, decided by Z3); inversion: fixed numbers with up to six free adjacent bits at chosen positions, for both moduli; roots: the chain of products with multiplication standing for addition of exponents; bn_divmod58/1000 and bn_format, which uBitcoin does not use, are outside")
prop("P31", "Signatures convert between DER, compact and text forms exactly",
  "For every pair of 32-byte numbers r and s, the DER form of a signature is the strict one (shortest integers, zero byte before a set top bit, correct lengths), length() is its size, and a buffer that cannot hold it is refused with 0 and not overrun. Reading that form back, by the constructors from bytes (with or without a length), from hex text or a string, or by fromDer into an object used before, restores r and s and consumes exactly the encoding; an encoding cut anywhere is not reported as complete. The compact form writes and reads r, s and the recovery index as far as the buffer reaches and touches nothing else. Text forms are the hex of the encodings, Schnorr signatures are their 64 bytes, equality is that of r and s, and a signature is valid unless both are zero.",
  ["inputs"], "all values of r and s (every number of leading zero bytes and both top bits), all buffer lengths around the boundaries", "The length of a DER signature depends on leading zeros and top bits of r and s; the rare lengths (probability 2^-8 to 2^-256) and too small buffers are what tests do not reach.",
  ["src/Bitcoin.cpp", "src/Bitcoin.h", "src/BaseClasses.h"], [("Signature::der, rlen, slen, length, fromDer, bin, fromBin", "src/Bitcoin.cpp"), ("Signature::from_stream, SchnorrSignature", "src/Bitcoin.cpp")],
  "one number fully symbolic, the other fully symbolic for a given count of leading zero bytes (0, 1, 31, 32; thorough: more) and top bit; text forms of both numbers fully symbolic only with one of them zero, otherwise with fixed first bytes; compact form for lengths up to 80")
prop("P32", "Descriptor checksums follow BIP380 for every descriptor",
  "descriptorChecksum gives, for every text over the descriptor alphabet and of any length, exactly the eight characters of BIP380; a text with any other character (the zero byte included) is refused with 0, as is an output buffer below eight characters. Nothing outside the buffers is touched, unused output is zero, and the string form gives the same characters or the empty string.",
  ["inputs"], "all characters at every place, descriptor lengths modulo three, all output sizes", "No test computes a descriptor checksum; errors in the grouping of characters or in a generator constant show for particular characters only.",
  ["src/PSBT.cpp", "src/PSBT.h"], [("descriptorChecksum, PolyMod", "src/PSBT.cpp")],
  "one arbitrary byte at each place of texts of up to 7 characters; two to eight characters from windows of the alphabet, or four characters each from any of the three groups (eight free bits), in texts of up to 110 characters")
prop("P33", "Electrum transactions parse exactly, sign only own inputs, compute the fee",
  "An unsigned Electrum transaction (legacy with account key and indices in each input script, or segwit with amount, account key and indices in place of each witness) parses, in one piece, in chunks cut anywhere or into a reused object, into exactly its transaction, account keys, derivation indices and amounts. A wrong prefix, an account key that is not valid, or an input script of another length is never reported as parsed; truncated data is incomplete; parsing always ends, and no memory is leaked or accessed out of bounds. Copies, also of incomplete objects, are independent. The fee is the inputs minus the outputs, zero when an amount is not known or the outputs exceed the inputs. Signing signs exactly the inputs whose account key is that of the given key, with the key at the two indices, over the right hash and in the form the key type says, and returns their number.",
  ["inputs", "histories"], "all contents of transactions with one or two inputs, every cut, every truncation, every key version", "One test parses and signs one fixed transaction in one piece; cuts inside the metadata, invalid keys, copies and foreign inputs are not tested.",
  ["src/Electrum.cpp", "src/Electrum.h", "src/HDWallet.cpp", "src/Transaction.cpp"], [("ElectrumTx::from_stream, sign, fee", "src/Electrum.cpp"), ("ElectrumTx copy and assignment", "src/Electrum.cpp"), ("HDPublicKey::from_stream", "src/HDWallet.cpp")],
  "one or two inputs, up to two outputs; contents fully symbolic when delivered whole, one symbolic byte per field when cut; fee for amounts below 2^61; hashes, curve, signing and child derivation are uninterpreted functions (decided elsewhere); multisig key versions are not signed with")

def main():
    import jobs
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=NA,
        notes="Every check compiles /repo's current sources to LLVM IR, executes them symbolically together with a harness (engine/, a symbolic executor built here on LLVM and Z3) and asks Z3 about every branch, memory access and assertion. Counterexamples are replayed against a native sanitizer build before they are reported. Bounds and abstractions: DESIGN.md and the evidence files.")
    na = {x["property"] for x in NA}
    for p in PROPS:
        if p["id"] in na: continue
        assert p["id"] in jobs.JOBS, p["id"]
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=TECH, level=p["_level"],
            level_note="Bounded: " + p["_note"] + ". Trusted: clang's front end, the executor's IR semantics (each run replays path models natively to validate them), Z3."))
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
    print(len(PROPS), "properties")
if __name__ == "__main__":
    main()
