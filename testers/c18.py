from nbc.util.pyaes.aes import AES
from . import refaes as R
def block(T, key, p):
    a = AES(key)
    c = a.encrypt(list(p)); T.eq(bytes(c), R.enc(key, p), 'encrypt'); T.eq(bytes(a.decrypt(c)), p, 'decrypt(encrypt(p))')
    T.eq(bytes(a.decrypt(list(p))), R.dec(key, p), 'decrypt'); T.eq(bytes(a.encrypt(p)), R.enc(key, p), 'encrypt a second time, of bytes')
    T.ok(all(type(x) is int for x in c) and len(c) == 16, 'a block of byte values', c)
def badkey(T, n): T.raises(ValueError, AES, bytes(n))
def badblock(T, k, n):
    a = AES(bytes(k)); T.raises(ValueError, a.encrypt, [0] * n); T.raises(ValueError, a.decrypt, [0] * n)
def two(T, k1, k2, p):
    a = AES(k1); b = AES(k2)
    T.eq(bytes(a.encrypt(list(p))), R.enc(k1, p), 'encrypt with two objects alive'); T.eq(bytes(b.decrypt(list(p))), R.dec(k2, p), 'decrypt with two objects alive')
def run(T):
    for n in range(0, 70):
        if n not in (16, 24, 32): T.case(badkey, n)
        if n != 16:
            for k in (16, 24, 32): T.case(badblock, k, n)
    for k in (16, 24, 32):
        T.case(block, bytes(range(k)), bytes.fromhex('00112233445566778899aabbccddeeff'))
        for v in range(256): T.case(block, bytes([v]) * k, bytes([v]) * 16); T.case(block, bytes(k), bytes([v]) * 16)
        for i in range(16):
            for b in (1, 128): p = bytearray(16); p[i] = b; T.case(block, bytes(k), bytes(p))
        for i in range(k):
            for b in (1, 127, 128, 255): p = bytearray(k); p[i] = b; T.case(block, bytes(p), bytes(16))
    while T.more():
        k = T.rng.choice((16, 24, 32)); T.case(block, T.bytes(k), T.bytes(16)); T.case(block, bytes(T.rng.getrandbits(8) for _ in range(k)), bytes(T.rng.getrandbits(8) for _ in range(16)))
        T.case(two, T.bytes(k), T.bytes(T.rng.choice((16, 24, 32))), T.bytes(16))
