#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=quant), why_tests_cant=why,
        anchors=dict(files=['nbc/'+f for f in files.split()],
            mechanism=[dict(name=n, where='nbc/'+w) for n, w in mech],
            state=[dict(name=n, meaning=m, where='nbc/'+w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
U, E = 'util/', 'util/ecdsa/'

p('C01', 'Base58 is an exact, reversible text form of byte strings',
  "Encoding any byte string to Base58 and decoding the text gives back exactly the same bytes, and decoding any text over the Base58 alphabet and encoding the result gives back the same text. The encoding is the standard one: one leading '1' per leading zero byte, followed by the big-endian value written in base 58 without leading '1'. Text with a character outside the alphabet is rejected with an error.",
  'inputs', 'all byte strings of every length; all texts over the alphabet; all texts with a foreign character',
  'No test exercises Base58 at all; the loops run once per digit, so correctness is an induction over the length and over leading zeros.',
  U+'base58.py', [('b58encode', U+'base58.py'), ('b58decode', U+'base58.py'), ('b58encode_int', U+'base58.py'), ('b58decode_int', U+'base58.py')])
p('C02', 'Base58Check accepts exactly the texts whose checksum matches',
  "Checked encoding appends the first four bytes of the double SHA-256 of the payload before Base58-encoding; checked decoding returns the payload when the last four decoded bytes equal that checksum of the bytes before them, and otherwise (including when fewer than four bytes are decoded) returns nothing instead of a payload. Hence every payload round-trips and no text with a wrong checksum yields a payload.",
  'inputs', 'all payloads of every length and all Base58 texts',
  'No test covers it; acceptance must be decided for every (payload, checksum) pair.',
  U+'base58.py', [('encode_check', U+'base58.py'), ('decode_check', U+'base58.py')])
p('C03', 'WIF private keys round-trip and malformed ones are refused',
  "A 32-byte private key written in wallet import format (with the 0x80 prefix, and with the 0x01 suffix when the key is for a compressed address) is read back as exactly the same 32 bytes. Text whose checksum is wrong, whose prefix differs, whose payload length is not 33 or 34 bytes, whose 34-byte payload does not end in 0x01, or whose first character does not match its form ('5' uncompressed; 'K' or 'L' compressed) is refused with a ValueError and never yields a key.",
  'inputs', 'all 32-byte keys, both forms; all Base58 texts',
  'No test reads or writes WIF; refusal must hold for every malformed text.',
  U+'key.py '+U+'base58.py', [('privkey_to_wif', U+'key.py'), ('privkey_from_wif', U+'key.py')])
p('C04', 'Public key compression is exact and bad keys are refused',
  "Compressing a 65-byte uncompressed secp256k1 public key and decompressing it gives back the same 65 bytes, for every point of the curve: the prefix is 02 for even y and 03 for odd y, followed by x in 32 bytes. Decompressing any 33-byte key yields a point of the curve with that x and that parity, and input that is not a point of the curve (coordinates outside the field, not on the curve, no square root, wrong prefix or length) is refused with ValueError.",
  'inputs', 'all curve points, both parities; all 33- and 65-byte strings',
  'No test compresses a key; there are 2^256 points and the parity, range and residue cases must all be right.',
  U+'key.py '+E+'ecdsa.py '+E+'numbertheory.py', [('compress_public_key', U+'key.py'), ('decompress_public_key', U+'key.py'), ('point_is_valid', E+'ecdsa.py')])
p('C05', 'An address encodes its version, vcn and public key hash exactly',
  "The address of a public key is the Base58Check text of: the version byte, the vcn reduced to 16 bits as four lowercase hex digits, and SHA-256 of the concatenation of RIPEMD-160 of the two halves of SHA-512 of the key. Every vcn, including ones with leading zeros, takes exactly four digits, so the address decodes to a 37-byte payload from which version, vcn and hash can be read back.",
  'inputs', 'all keys, all integer vcn values, all version bytes', 'No test derives an address.',
  U+'key.py '+U+'hash.py', [('publickey_to_address', U+'key.py'), ('pubkeyhash_to_address', U+'key.py')])
p('C06', 'Integer and byte-string conversions are exact',
  "Converting an integer in [0, order) to its fixed-width big-endian byte string and back gives the same integer, the width being the minimal number of bytes that holds the order; an integer that does not fit that width is refused, never truncated. Variable-width conversion of a non-negative integer gives its minimal big-endian bytes (one zero byte for 0), and reading bytes gives their big-endian value for every length, leading zeros included.",
  'inputs', 'all integers, all orders, all byte strings of every length', 'Tests sample a few random orders; boundary values (leading zero bytes, order-1, one past the width) need every input.',
  E+'util.py '+E+'ecdsa.py '+E+'curves.py', [('number_to_string', E+'util.py'), ('string_to_number', E+'util.py'), ('string_to_number_fixedlen', E+'util.py'), ('int_to_string', E+'ecdsa.py'), ('string_to_int', E+'ecdsa.py'), ('orderlen', E+'curves.py')])
p('C07', 'Modular inverse, gcd and lcm are exact',
  "For every modulus m > 1 and every integer a coprime to m (negative or larger than m included) the modular inverse lies strictly between 0 and m and multiplies a to 1 modulo m; a not coprime to m is refused with an error. The gcd of any non-negative integers is their greatest common divisor and the lcm of positive integers is their least common multiple, for two or more arguments or a list.",
  'inputs', 'all integers a, all moduli m > 1; all lists of integers', 'Tests sample moduli up to 10000; signatures use 256-bit moduli and the extended Euclid loop runs an unbounded number of times.',
  E+'numbertheory.py', [('inverse_mod', E+'numbertheory.py'), ('gcd', E+'numbertheory.py'), ('lcm', E+'numbertheory.py')])
p('C08', 'Modular square roots and Jacobi symbols are exact',
  "For every odd prime p and 0 <= a < p, the modular square root is a value in [0, p) whose square is a modulo p whenever one exists, and otherwise the dedicated square-root error is raised; it never returns a wrong value. The Jacobi symbol is computed correctly for every integer and every odd modulus of at least 3.",
  'inputs', 'all odd primes p and residues a; all odd n >= 3 and integers a', 'Tests go up to p = 1229; public-key decompression needs p near 2^256.',
  E+'numbertheory.py', [('square_root_mod_prime', E+'numbertheory.py'), ('jacobi', E+'numbertheory.py'), ('modular_exp', E+'numbertheory.py')])
p('C09', 'Elliptic-curve arithmetic implements the group law',
  "Adding two points of a curve, doubling a point and multiplying a point by a non-negative integer give exactly the result of the elliptic-curve group law, as a point of the same curve with coordinates in [0, p), including all special cases: infinity as operand or result, equal points, opposite points, points of order two, scalar zero, scalars at or above the point's order. No valid operand makes these operations crash.",
  'inputs', 'all curves over odd primes, all pairs of points, all scalars', 'Tests check some multiples on a toy curve and P-192; the chord, tangent and double-and-add loop need all points and scalars.',
  E+'ellipticcurve.py', [('Point.__add__', E+'ellipticcurve.py'), ('Point.double', E+'ellipticcurve.py'), ('Point.__mul__', E+'ellipticcurve.py'), ('CurveFp.contains_point', E+'ellipticcurve.py')])
p('C10', 'Every signature made with a key verifies under its public key',
  "For every supported curve, every private key in [1, n-1], every nonce in [1, n-1] and every message digest, signing either reports the (negligible) zero-component case with an error or yields r and s both in [1, n-1] that satisfy the ECDSA equations and are accepted by the matching public key for the same digest. This holds for raw, string-pair and DER signature formats and for random and deterministic nonces.",
  'inputs', 'all keys, nonces, digests and curves', 'Tests sign a handful of messages; completeness is an algebraic identity over all keys, nonces and digests.',
  E+'ecdsa.py '+E+'keys.py', [('Private_key.sign', E+'ecdsa.py'), ('Public_key.verifies', E+'ecdsa.py'), ('SigningKey.sign_digest', E+'keys.py'), ('VerifyingKey.verify_digest', E+'keys.py')])
p('C11', 'Signature verification accepts exactly the valid signatures',
  "Verification of (r, s) for a digest h and public point Q returns True exactly when r and s are both in [1, n-1] and the x-coordinate of (h/s)G + (r/s)Q, reduced modulo n, equals r; every other pair - zero, negative or too large components, or a sum at infinity - gives False (a bad-signature error in the key-object interface) and not a crash. The byte-level check with the wallet hash returns False for a public key that is not a valid curve point, and never returns True for a signature whose r or s is out of range.",
  'inputs', 'all signature pairs, digests, public points', 'Tests flip one bit of a valid signature; soundness must hold for every pair, edge values included.',
  E+'ecdsa.py '+E+'keys.py '+U+'ecc.py', [('Public_key.verifies', E+'ecdsa.py'), ('VerifyingKey.verify_digest', E+'keys.py'), ('ecc.verify', U+'ecc.py')])
p('C12', 'Signature encodings round-trip and canonical forms have low s',
  "For every r and s in [1, n-1], encoding a signature as a fixed-length string, a pair of strings or DER and decoding it returns exactly (r, s), and the liberal DER decoder used for wallet signatures agrees with the strict one on every well-formed encoding. The canonizing encoders output s when s <= n div 2 and n - s otherwise, so the decoded s never exceeds half the order. The strict decoders refuse everything longer or shorter than such an encoding: bytes after the signature or after its numbers, strings of another length.",
  'inputs', 'all (r, s) in [1, n-1]^2, all curve orders', 'Tests use a few signatures; the sign-bit padding and the exact half-order boundary are never hit.',
  E+'util.py '+E+'der.py '+U+'ecc.py', [('sigencode_der', E+'util.py'), ('sigdecode_der', E+'util.py'), ('sigencode_der_canonize', E+'util.py'), ('sigdecode_der (liberal)', U+'ecc.py')])
p('C13', 'DER encoders and decoders are inverse',
  "For every non-negative integer, byte string, bit string, object identifier, sequence, constructed value and length, the DER encoder produces the standard encoding (minimal definite length, minimal positive integer, base-128 identifier components) and the matching decoder applied to it followed by any trailing bytes returns the original value and exactly those trailing bytes. A wrong tag or a truncated length or number is refused with the DER error.",
  'inputs', 'all integers, strings, identifiers, lengths; all trailing bytes', 'Tests use small samples; lengths of 128, 256 or 65536 bytes and multi-byte identifiers change the code path.',
  E+'der.py', [('encode_integer/remove_integer', E+'der.py'), ('encode_length/read_length', E+'der.py'), ('encode_oid/remove_object', E+'der.py'), ('encode_number/read_number', E+'der.py'), ('encode_sequence/remove_sequence', E+'der.py')])
p('C14', 'Keys survive serialization',
  "Writing a private or public key of any supported curve as raw bytes, DER or PEM and reading it back yields a key with the same curve, the same secret (for private keys) and the same public point. Reading a raw public key accepts only points of the curve, and reading a private key accepts only values in [1, n-1]. A public key is made only of a point of the group whose coordinates are in [0, p-1].",
  'inputs', 'all keys of all six supported curves', 'Tests round-trip one random key per curve; keys with leading zero bytes or extreme values are not reached.',
  E+'keys.py '+E+'der.py '+E+'curves.py', [('SigningKey.to_der/from_der', E+'keys.py'), ('VerifyingKey.to_der/from_der', E+'keys.py'), ('from_string', E+'keys.py'), ('topem/unpem', E+'der.py')])
p('C15', 'Deterministic nonces follow RFC 6979',
  "For every group order, private key, hash function and digest, the deterministic nonce is the value defined by RFC 6979 section 3.2, including digests longer than the order, orders that are not a whole number of bytes, and candidates that are rejected and retried. It lies in [1, n-1] and depends on nothing but those inputs, so equal inputs always give equal signatures.",
  'inputs', 'all orders, keys, digests, hash functions; all numbers of retries', 'The test vectors never reach a retry on most orders, because a rejected candidate is rare.',
  E+'rfc6979.py '+E+'keys.py', [('generate_k', E+'rfc6979.py'), ('bits2int', E+'rfc6979.py'), ('bits2octets', E+'rfc6979.py'), ('sign_digest_deterministic', E+'keys.py')])
p('C16', 'Generated secrets are always valid secrets',
  "For every order greater than 1 and every behaviour of the entropy source, a generated random secret lies in [1, order-1], is one more than the big-endian value of one block of the minimal byte length drawn from that source (the first block in range), and generation gives up with an error instead of returning an out-of-range value or looping forever. The seed-based overshoot-modulo and try-try-again generators are deterministic functions of seed and order with results in [1, order-1]. Try-try-again takes the first block in range of the seed's pseudo-random bytes, cut into blocks of a width (a function of the order) that is wide enough for every secret; the truncating generators give one more than the leading bytes or bits of that width of the seed's hash, and an error instead of a number that is out of range.",
  'inputs fault_sequences', 'all orders, all sequences of entropy blocks, all seeds', 'Tests sample a few random orders with real entropy; sources that return boundary blocks are never seen.',
  E+'util.py', [('randrange', E+'util.py'), ('randrange_from_seed__overshoot_modulo', E+'util.py'), ('randrange_from_seed__trytryagain', E+'util.py'), ('PRNG', E+'util.py')])
p('C17', 'Both sides of a key agreement derive the same secret',
  "For any two secp256k1 private keys a and b, the shared secret computed from public key A and private key b equals the one computed from public key B and private key a, whichever of compressed or uncompressed form the public keys are given in. It is the 32-byte big-endian x-coordinate of ab times the generator.",
  'inputs', 'all pairs of private keys, both public-key forms', 'No test computes a shared secret.',
  U+'ecc.py '+U+'key.py', [('shared_secret', U+'ecc.py')])
p('C18', 'AES block encryption is FIPS-197 and decryption inverts it',
  "For every 16-, 24- or 32-byte key and every 16-byte block, block encryption gives the FIPS-197 cipher of the block and block decryption gives the FIPS-197 inverse cipher, so decrypting an encrypted block returns the block. Keys and blocks of any other length are refused with ValueError.",
  'inputs', 'all 2^128, 2^192 and 2^256 keys and all 2^128 blocks', 'No test runs AES; equality over all keys and blocks cannot be sampled.',
  U+'pyaes/aes.py', [('AES.__init__ (key schedule)', U+'pyaes/aes.py'), ('AES.encrypt', U+'pyaes/aes.py'), ('AES.decrypt', U+'pyaes/aes.py')])
p('C19', 'AES modes implement SP 800-38A and decryption inverts encryption',
  "In ECB, CBC, CFB (any segment size from 1 to 16), OFB and CTR mode, any sequence of encryption calls yields the SP 800-38A ciphertext of the concatenated plaintext for the given key and initial vector or counter, and a fresh object with the same parameters decrypts it back, whatever the call boundaries. The 128-bit counter increments by one per block, carries across all bytes and wraps from its maximum to zero; input of a wrong block or segment length is refused with ValueError.",
  'inputs histories', 'all keys, vectors, counters, plaintexts and sequences of calls', 'No test runs any mode; state carried between calls depends on the whole call history.',
  U+'pyaes/aes.py', [('AESModeOfOperationCBC', U+'pyaes/aes.py'), ('AESModeOfOperationCFB', U+'pyaes/aes.py'), ('AESModeOfOperationOFB', U+'pyaes/aes.py'), ('AESModeOfOperationCTR', U+'pyaes/aes.py'), ('Counter.increment', U+'pyaes/aes.py')])
p('C20', 'Padding and the stream feeder lose nothing',
  "PKCS#7 padding adds between 1 and 16 bytes to reach a multiple of 16 and removing it gives back the original data, for data of every length; removing padding from data whose length is not a multiple of 16 or whose last byte is not in 1..16 is refused with ValueError. Feeding a plaintext to the stream encrypter in any pieces (in a buffer the caller then reuses, too) and finishing gives a ciphertext that depends only on the whole plaintext, and the stream decrypter fed that ciphertext in any pieces returns exactly the plaintext, in every mode.",
  'inputs histories', 'all data of every length, all ways to cut it into pieces, all modes', 'No test uses the feeder; the buffered remainder depends on the history of calls.',
  U+'pyaes/blockfeeder.py '+U+'pyaes/util.py', [('BlockFeeder.feed', U+'pyaes/blockfeeder.py'), ('append_PKCS7_padding', U+'pyaes/util.py'), ('strip_PKCS7_padding', U+'pyaes/util.py')])
p('C21', 'A saved wallet loads back unchanged',
  "Saving an address wallet or HD wallet to a file, with or without a passphrase, and loading it with the same passphrase yields a wallet with the same keys (private if it had one, otherwise public in the same compressed or uncompressed form), vcn, testnet flag and address, and for HD wallets the same chain code, depth, parent fingerprint and child number. With a passphrase, the private key is stored encrypted under AES-CBC and the file never contains it in clear.",
  'inputs', 'all wallets, all passphrases', 'No test saves a wallet.',
  'wallet/__init__.py wallet/address.py wallet/hdwallet.py', [('saveTo/loadFrom', 'wallet/__init__.py'), ('Address.dump_to_cfg/load_from_cfg', 'wallet/address.py'), ('HDWallet.dump_to_cfg/load_from_cfg', 'wallet/hdwallet.py'), ('_aesEncrypt/_aesDecrypt', 'wallet/address.py')])
p('C22', 'An address object is consistent with its key',
  "An address built from a private key has as public key the generator times that secret, in compressed form exactly when the private key's text form says so, and its address text is that of its public key, vcn and network. Compressing and decompressing an address keep key, vcn and network and undo each other; what it signs it verifies; and an address given both keys, no key, or a malformed key is refused.",
  'inputs', 'all private keys, public keys, vcn values', 'No test builds an address.',
  'wallet/address.py', [('Address.__init__', 'wallet/address.py'), ('compress/decompress', 'wallet/address.py'), ('sign/verify', 'wallet/address.py')])
p('C23', 'HD derivation is BIP-32 and public and private derivation agree',
  "Deriving a child wallet follows BIP-32: HMAC-SHA512 under the chain code of the parent's serialized public key (or 0x00 and private key for indexes from 2^31 up) and the 4-byte index, key addition modulo the group order, new chain code, depth plus one, parent fingerprint and child number. For every index below 2^31, deriving publicly from a wallet's public part gives the same public key, chain code and address as deriving privately, and hardened derivation without the private key is refused.",
  'inputs', 'all wallets, all indexes below 2^32, all derivation paths', 'No test derives a child key.',
  'wallet/hdwallet.py', [('HDWallet.child', 'wallet/hdwallet.py'), ('HDWallet.from_master_seed', 'wallet/hdwallet.py'), ('point_compress', 'wallet/hdwallet.py'), ('fingerprint', 'wallet/hdwallet.py')])
p('C24', 'Extended keys carry the whole wallet node',
  "Reading an extended private key written for a wallet restores the same private key, chain code, depth, parent fingerprint, child number and network; reading an extended public key restores the same public point and the same other fields, without the private key. Extended keys with a wrong length, checksum, version or key prefix, or whose key is not valid, are refused.",
  'inputs', 'all wallet nodes on both networks; all 82-byte payloads', 'No test reads or writes an extended key.',
  'wallet/hdwallet.py', [('to_extended_key', 'wallet/hdwallet.py'), ('from_extended_key', 'wallet/hdwallet.py'), ('point_decompress', 'wallet/hdwallet.py')])
p('C25', 'Private keys stay out of printed and public forms',
  "The printed form of an address or HD wallet, its extended public key and its watch-only saved form do not depend on the private key except through the public key and the fact that one is present. In particular two wallets with the same public data print and export identically.",
  'inputs', 'all wallets', 'No test prints a wallet; non-interference is a statement about pairs of runs.',
  'wallet/address.py wallet/hdwallet.py', [('Address.__str__', 'wallet/address.py'), ('HDWallet.__str__', 'wallet/hdwallet.py'), ('to_extended_key', 'wallet/hdwallet.py')])
p('C26', 'Variable-length fields round-trip in shortest form',
  "Every count from 0 to 2^64-1 is written in the shortest of the 1-, 3-, 5- and 9-byte forms and read back as the same count with the right number of bytes consumed. Every byte string and every list of elements is written as its count followed by its contents and read back identically in front of any trailing bytes, and input that ends before the declared contents is refused.",
  'inputs', 'all counts below 2^64; all byte strings and lists of every length; all trailing bytes and truncations', 'No test covers the protocol; boundaries such as 252, 65535 and 2^32 and truncated input matter.',
  'protocol/format.py', [('FtVarInteger', 'protocol/format.py'), ('FtVarString', 'protocol/format.py'), ('FtArray', 'protocol/format.py'), ('parse_var_set', 'protocol/format.py')])
p('C27', 'Network addresses keep their meaning on the wire',
  "A dotted IPv4 address is written as ten zero bytes, two 0xff bytes and its four octets and read back as the same text; an IPv6 address in full or '::'-shortened form is written as its sixteen bytes, and reading any sixteen bytes gives a text that writes to the same sixteen bytes. Address text that does not denote such an address is rejected by validation, and whatever validation accepts can be written; ports are big-endian.",
  'inputs', 'all 2^32 IPv4 and 2^128 IPv6 addresses, all texts', 'No test covers addresses.',
  'protocol/format.py', [('FtIPAddress', 'protocol/format.py'), ('NetworkAddress', 'protocol/format.py'), ('FtNetworkAddressNoTimestamp', 'protocol/format.py')])
p('C28', 'Every protocol message survives the wire',
  "For each registered message type and each set of valid field values, parsing the serialized message yields a message of the same type with the same field values (strings as bytes, float timestamps truncated, the two addresses of a version message with timestamp 0). The frame is magic, 12-byte zero-padded command, little-endian payload length, first four bytes of the double SHA-256 of the payload, payload; a version message without the final relay byte parses with relay true.",
  'inputs', 'all message types and all field values and list lengths', 'No test builds a message.',
  'protocol/messages.py protocol/format.py', [('Message.binary', 'protocol/messages.py'), ('Message.parse', 'protocol/messages.py'), ('CompoundType.binary/parse', 'protocol/format.py')])
p('C29', 'Only well-formed messages are accepted',
  "Parsing a frame succeeds only if its magic matches, its checksum equals that of its payload and its command names a registered message type; a bad magic or checksum is a format error, an unregistered command (including the types that opt out of registration) is an unknown-message error, and a payload with missing or truncated fields is a parameter error. The frame length is announced as soon as, and not before, 20 header bytes are present, and equals 24 plus the little-endian payload length.",
  'inputs', 'all byte strings', 'No test parses a message.',
  'protocol/messages.py protocol/format.py', [('Message.parse', 'protocol/messages.py'), ('Message.first_msg_len', 'protocol/messages.py'), ('_AutoRegister', 'protocol/format.py')])
p('C30', 'Message fields are validated on construction',
  "A message or protocol structure can be constructed only when every field is given exactly once and valid: integers within their wire range (floats only where timestamps allow them), byte fields of the exact length, lists within their length limits and with every element valid, nested structures of the right type (an optional field with an invalid value takes its default). Every other construction raises an error, and a constructed object serializes without error as long as its counts are below 2^64 and its text is Latin-1.",
  'inputs', 'all field values of all types, all argument patterns', 'No test constructs a message.',
  'protocol/format.py', [('CompoundType.__init__', 'protocol/format.py'), ('FtNumber.validate', 'protocol/format.py'), ('FtBytes.validate', 'protocol/format.py'), ('FtArray.validate', 'protocol/format.py')])
p('C31', 'Transaction, block and Merkle hashes are the standard ones',
  "A transaction's hash is the double SHA-256 of its serialization, a block header's hash that of its first 80 serialized bytes (version, previous hash, Merkle root, time, bits, nonce, without the transaction count), and repeated reads give the same value. The Merkle root of a non-empty list of transactions is obtained by hashing pairs level by level, duplicating the last hash of an odd level, down to one hash (a single transaction's hash is its own root), without changing the list. The hash helpers are the named standard functions (sha256d is SHA-256 twice, hash160 the RIPEMD-160 of the SHA-256). A header or block message made from a stored block carries that block's fields, a header also its number of transactions.",
  'inputs', 'all transactions, headers and lists of every length', 'No test hashes anything; the tree shape depends on the list length.',
  'protocol/format.py protocol/messages.py util/__init__.py '+U+'hash.py', [('Txn.hash', 'protocol/format.py'), ('BlockHeader.hash', 'protocol/format.py'), ('get_merkle_root', 'util/__init__.py'), ('sha256d/hash160', U+'hash.py'), ('from_block', 'protocol/messages.py')])
p('C32', 'Alert payloads expose exactly the fields they contain',
  "For every alert payload built from the documented field sequence (version, relay-until, expiration, id, cancel, cancel set, version range, sub-version set, priority, comment, status bar, reserved), each field read from the alert equals the encoded one, in any order of reading and with trailing bytes ignored. An alert verifies exactly when its signature is valid for the double SHA-256 of the payload under the given key.",
  'inputs histories', 'all field values, set sizes, trailing bytes and orders of reading', 'No test builds an alert.',
  'protocol/messages.py', [('Alert._parse_and_get', 'protocol/messages.py'), ('Alert.verify', 'protocol/messages.py')])
p('C33', 'Received bytes are cut into messages independently of chunking',
  "However the incoming byte stream is cut into chunks, each complete frame is handled exactly once, in order, as soon as its last byte has arrived, and an incomplete tail is kept for the next chunk. A frame that is malformed, unknown or whose handling fails does not prevent the following frames from being handled, and received-byte counters equal the bytes received.",
  'schedules inputs histories', 'all byte streams, all ways of chunking them', 'No test runs a connection; the buffer depends on the arrival history.',
  'node/connection.py protocol/messages.py', [('Connection.handle_read', 'node/connection.py'), ('Message.first_msg_len', 'protocol/messages.py')],
  [('_recv_buffer', 'bytes received and not yet part of a handled frame', 'node/connection.py')])
p('C34', 'Sent messages leave in order, whole and once',
  "The bytes written to the socket plus the bytes still buffered always equal, in order, the serialized messages sent so far, whatever number of bytes each socket write accepts; the connection wants to write exactly while something is buffered, and the byte counters equal the bytes accepted. A failing socket write closes the connection without losing track of what was accepted before.",
  'histories fault_sequences', 'all sequences of sends and partial writes and failures', 'No test runs a connection.',
  'node/connection.py', [('Connection.send_message', 'node/connection.py'), ('Connection.handle_write', 'node/connection.py'), ('Connection.writable', 'node/connection.py')],
  [('_send_buffer', 'serialized bytes not yet accepted by the socket', 'node/connection.py')])
p('C35', 'The address book stays bounded and is shared newest first',
  "No sequence of received address lists and version acknowledgements makes the node remember more than 2500 peer addresses, and an address received while there is room is recorded with its timestamp and services under its (address, port). A request for addresses is answered with at most 1000 known addresses, the most recently seen first, each with its own recorded data, leaving out those with unknown services.",
  'histories inputs', 'all sequences of address messages and all address books', 'No test runs a node.',
  'node/basenode.py', [('command_address', 'node/basenode.py'), ('command_version_ack', 'node/basenode.py'), ('command_get_address', 'node/basenode.py')],
  [('_addresses', 'known peer addresses with (timestamp, services)', 'node/basenode.py')])
p('C36', 'Misbehaving peers are banned for an hour, others are not',
  "A peer's misbehaviour score rises by the given penalty, decays by the given amount and never goes below zero; when a punishment brings it above 5 the peer is disconnected and its IP is banned from that moment. An incoming connection from a banned IP, on any port, is closed without being served until one hour has passed since the ban, after which the ban is forgotten; other IPs are served exactly when the node is listening.",
  'histories inputs', 'all sequences of punishments, decays and connection attempts, all times', 'No test runs a node.',
  'node/basenode.py node/connection.py', [('punish_peer', 'node/basenode.py'), ('handle_accept', 'node/basenode.py'), ('add_banscore/reduce_banscore', 'node/connection.py')],
  [('_banned', 'time each banned IP was banned', 'node/basenode.py')])
p('C37', 'The external address is the one most peers report',
  "After peers report the node's external address, the guessed external address is one reported by at least as many connected peers as any other, peers that reported none are ignored, and with no report the previous guess is kept; an explicitly set external address takes precedence.",
  'inputs histories', 'all sets of peers and reports', 'No test runs a node.',
  'node/basenode.py', [('_check_external_ip', 'node/basenode.py'), ('external_ip', 'node/basenode.py')])
p('C38', 'Version numbers, compact targets and hex helpers convert exactly',
  "Packing a version from major, minor, revision and build and unpacking it returns the same four numbers, for any major and the others in 0..99, and out-of-range parts are refused. A compact difficulty value expands to the 32-byte big-endian target mantissa times 256 to the (exponent - 3), rounded down, whenever that fits; a block header meets its target exactly when the coin's proof-of-work hash of its first 80 serialized bytes, read as a little-endian number, is at most that target; converting hash bytes to reversed hex and back returns the same bytes.",
  'inputs', 'all version tuples, all 32-bit compact values whose target fits, all byte strings', 'No test covers these helpers.',
  'util/__init__.py', [('make_version/get_version', 'util/__init__.py'), ('get_target/verify_target', 'util/__init__.py'), ('hex_to_bin/bin_to_hex', 'util/__init__.py')])
p('C39', 'Split keys recombine and a combined key has the predicted address',
  "Splitting an uncompressed private key into any number of parts and combining the parts gives back the key, and combining keys adds their secrets modulo the group order. The address computed from an uncompressed public key and another private key, without knowing the first private key, is the uncompressed address of the combination of the two private keys.",
  'inputs', 'all private keys, all numbers of parts, all random choices', 'No test splits or combines a key.',
  U+'piecewise.py', [('split_private_key', U+'piecewise.py'), ('combine_private_keys', U+'piecewise.py'), ('get_address', U+'piecewise.py')])
p('C40', 'Background lookups share what they find safely, within the time limit',
  "Creating a DNS seeder starts one daemon lookup per seed, each for its own seed, and returns without waiting. Whatever the interleaving of lookups, len and pop, and whichever lookups fail, the seeder holds the address and port of every answer received so far, once per answer, except those popped; pop hands out one held entry and removes exactly it (no entry is handed out twice), len is the number held, and pop of an empty seeder fails leaving it usable. Guessing the block height asks every service of the coin once, in the background, and returns within the time limit a dictionary with the result of every query that succeeded in time, by the name of its service, and nothing of queries that failed; results arriving later do not appear in it. Shared data is only touched under its lock, no lock is held while waiting for the network, and no failure in a background thread escapes. A JSON height query returns the integer at its path through objects and lists, any number of components deep, and None if the answer is not JSON, lacks the path or has no number there; a plain query returns the number answered, or None.",
  'schedules fault_sequences inputs', 'all interleavings of the background threads with the callers, all numbers of seeds, services and answers, all failures of the network, all time limits and delays, all answers and paths', 'Thread schedules and network timing are not controlled by any test.',
  'util/__init__.py '+U+'bootstrap.py', [('guess_block_height/fetch_url_json_path_int/fetch_url_int', 'util/__init__.py'), ('DNSSeeder', U+'bootstrap.py')])
p('C41', 'Port mapping is requested once and removed on shutdown',
  "Before it serves, a listening node asks the gateway for one mapping to its port, of an external port that is free and not below its own, whenever there is one; when it stops, on every way out of the event loop, it asks for the removal of that mapping and of no other. A gateway that fails, refuses or is missing does not keep the node from serving, and a node that does not listen asks for nothing.",
  'histories fault_sequences', 'all ports, all sets of ports mapped by others, all failures of the gateway, all ways the event loop ends', 'Needs a UPnP gateway and the miniupnpc extension, neither of which is available to a test.',
  'node/__init__.py node/basenode.py', [('add_portmap/remove_portmap', 'node/__init__.py'), ('serve_forever', 'node/basenode.py')])
p('C42', 'Messages can always be described, and logging changes nothing',
  "Every message and structure whose fields are valid, and every alert with a well-formed payload, can be described in full (str) and, for messages, in short: the result is a text, no error is raised and no field changes; the full description of a message or structure (alerts apart) names every field. At whatever level a node logs, a connection handles and sends the same messages; a log entry appears, once, exactly when its level is at least the node's log level.",
  'inputs', 'all messages and structures with valid fields, all log levels', 'Descriptions are made only while logging, which no test turns on; which values break them depends on the fields.',
  'protocol/messages.py protocol/format.py node/connection.py node/basenode.py', [('Message._debug/__str__', 'protocol/messages.py'), ('CompoundType.__str__', 'protocol/format.py'), ('BaseNode.log', 'node/basenode.py')])
p('C43', 'HD wallet signatures verify with the wallet or its public counterpart',
  "What an HD wallet node signs with its private key verifies with the same node, with its watch-only counterpart, with the nodes restored from its extended keys and with an address of the same key; a node without its private key refuses to sign. Any signature is accepted exactly when it is valid for the node's public key.",
  'inputs', 'all wallet nodes, messages and signatures', 'No test signs with a wallet; leading zeros in keys and signatures matter.',
  'wallet/hdwallet.py wallet/address.py', [('HDWallet.sign/verify', 'wallet/hdwallet.py'), ('Address.sign/verify', 'wallet/address.py')])
p('C44', 'Connections introduce themselves, answer and stay alive',
  "A new connection sends the version message first, with the node's protocol, services, agent and height, the peer's and the node's addresses; when dialing fails or the message cannot be built the connection is closed and the node told. A ping is answered with a pong of the same nonce and a version with a verack, in both cases exactly once; pongs and veracks are not answered. A connection that has sent nothing for over 30 minutes is pinged, at most once every 5 minutes, and one silent for over 3 hours is closed.",
  'histories inputs', 'all nodes, addresses, times and received messages', 'No test runs a connection; the timing depends on the history.',
  'node/connection.py', [('Connection.__init__', 'node/connection.py'), ('Connection.handle_message/command_*', 'node/connection.py'), ('Connection.readable', 'node/connection.py')],
  [('_last_tx_time, _last_rx_time, _last_ping_time', 'times of the last write, read and ping', 'node/connection.py')])
p('C45', 'Peers are sought without duplicates or overload',
  "Asked to connect, the node dials the address exactly when it has no connection to it and, unless forced, is below its limit. Looking for one more peer it dials a known address it is not connected to, or one from the coin's seeds. Maintenance runs when more than ten seconds have passed since the last one: it attempts as many connections as are missing to the number sought, at most five, asks one connected peer for addresses while fewer than fifty are known, and forgives each peer one point. Removing a peer closes its connection only, and an address whose connection closed leaves the address book.",
  'histories inputs', 'all numbers of peers and known addresses, all outcomes of dialing, all times', 'No test runs a node.',
  'node/basenode.py node/connection.py', [('add_peer/add_any_peer/remove_peer', 'node/basenode.py'), ('heartbeat', 'node/basenode.py'), ('disconnected', 'node/basenode.py')])
p('C46', 'Coins, curves and transaction outputs are identified exactly',
  "A coin is found exactly by its name or its symbol, whatever the case of the letters, and no coin is returned when neither is a coin's. A curve is found exactly by its object identifier, and an unknown identifier is refused as an unknown curve. Two outpoints are equal exactly when their transaction hash and output index both are, equal outpoints hash equally, and an outpoint differs from everything that is not one.",
  'inputs', 'all names and symbols, all object identifiers, all pairs of outpoints', 'No test looks up a coin or a curve by a text it did not spell exactly, or compares outpoints.',
  'coins/__init__.py '+U+'ecdsa/curves.py protocol/format.py', [('get_coin', 'coins/__init__.py'), ('find_curve', U+'ecdsa/curves.py'), ('OutPoint.__eq__/__hash__', 'protocol/format.py')])
p('C47', "A node's channel table behaves as a mapping",
  "A channel put in under a key is found there - by subscript, get, in, keys, values, iteration and count - until it is deleted; nothing else appears in the table. Looking up or deleting an absent key raises KeyError, get gives the default (None unless given), and looking up never changes the table.",
  'histories', 'all tables, keys, channels and sequences of operations', 'No test runs a node.',
  'node/basenode.py', [('BaseNode mapping methods', 'node/basenode.py')], [('_peers', 'sockets and connections being served', 'node/basenode.py')])
p('C48', 'The supported curves are the published groups of prime order',
  "Each supported curve has the field, equation, base point, order and object identifier published under its name; field and order are prime, the curve is not singular, the base point lies on it and has exactly that order, and there are no points but its multiples. The lengths a curve announces for scalars, public keys and signatures are the number of bytes of its order, twice for the latter two.",
  'inputs', 'all points of the supported curves, all orders', 'Tests sample a few multiples of base points; that there are no other points, and primality, cannot be sampled.',
  U+'ecdsa/ecdsa.py '+U+'ecdsa/curves.py', [('curve parameters', U+'ecdsa/ecdsa.py'), ('Curve.__init__', U+'ecdsa/curves.py')])
p('C49', 'A new node is as configured',
  "A new node listens on a stream socket bound, for reuse, to the address asked for - any free local port when none is - and reports the address it is bound to as its address, IP and port, and the one asked for as the guess of its external IP until that is set. Exactly when the system says the address is in use, AddrInUseError is raised; any other failure of the socket comes out unchanged, and a node is never half made. Its data directory, coin, log, limits of connections and of peers sought are those given, otherwise the default directory, newbitcoin, standard output, 125 and 16; it bootstraps only if asked to (by default a plain node does, a raw node does not), from the seeds the coin has when the node is made; it names the coin in its user agent, logs errors only, knows no peers and is at height 0. User agent, log level and external IP read back as set. A raw node is configured in the same way. Starting a server serves the node in one daemon thread and does not wait for it.",
  'inputs fault_sequences', 'all addresses, ports and limits, all failures of the socket operations', 'No test makes a node; the failures of sockets cannot be sampled.',
  'node/basenode.py node/raw.py', [('BaseNode.__init__', 'node/basenode.py'), ('startServer', 'node/basenode.py'), ('RawNode.__init__', 'node/raw.py')])
p('C50', 'A failing connection is closed alone and the node goes on',
  "Whatever error occurs while a connection is read, written or handled, that connection is closed - even when closing it fails as well - and the node is told; no other connection and not the listening socket is touched. An error handed to a connection is reported once for that peer, a failing socket as information, anything else as an error with what happened. A failure to accept or to set up an incoming connection is reported as an error and leaves the node listening; a node is always ready to accept. An invalid message is reported and closes nothing.",
  'fault_sequences', 'all kinds of errors at every operation of a connection, all other connections', 'No test runs a node; the failures of sockets cannot be sampled.',
  'node/connection.py node/basenode.py', [('Connection.handle_error/handle_close', 'node/connection.py'), ('handle_accept/handle_error', 'node/basenode.py')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
