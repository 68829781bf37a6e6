"""FIPS-197 and SP 800-38A, written from the standards: bytes as field elements, no tables of the code under test."""
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x11b
        b >>= 1
    return r
def _sbox():
    s = []
    for x in range(256):
        i = next((y for y in range(256) if gmul(x, y) == 1), 0); r = 0x63
        for k in range(5): r ^= (i << k | i >> (8 - k)) & 255
        s.append(r)
    return s
S = _sbox(); SI = [S.index(i) for i in range(256)]
M = {k: [gmul(k, x) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}
def expand(key):
    nk = len(key) // 4; nr = nk + 6
    w = [list(key[4*i:4*i+4]) for i in range(nk)]; rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[-1])
        if i % nk == 0:
            t = [S[x] for x in t[1:] + t[:1]]; t[0] ^= rc; rc = gmul(rc, 2)
        elif nk > 6 and i % nk == 4: t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4*r:4*r+4], []) for r in range(nr + 1)]
_K = {}
def rk(key):
    if key not in _K:
        if len(_K) > 500: _K.clear()
        _K[key] = expand(key)
    return _K[key]
def xor(a, b): return [x ^ y for x, y in zip(a, b)]
def enc(key, b):
    k = rk(key); s = xor(b, k[0])
    for r in range(1, len(k)):
        s = [S[s[(4*(c+i) + i) % 16]] for c in range(4) for i in range(4)]
        if r < len(k) - 1:
            n = []
            for c in range(4):
                a = s[4*c:4*c+4]
                n += [M[2][a[i]] ^ M[3][a[(i+1)%4]] ^ a[(i+2)%4] ^ a[(i+3)%4] for i in range(4)]
            s = n
        s = xor(s, k[r])
    return bytes(s)
def dec(key, b):
    k = rk(key); s = xor(b, k[-1])
    for r in range(len(k) - 2, -1, -1):
        s = [SI[s[(4*(c-i) + i) % 16]] for c in range(4) for i in range(4)]
        s = xor(s, k[r])
        if r:
            n = []
            for c in range(4):
                a = s[4*c:4*c+4]
                n += [M[14][a[i]] ^ M[11][a[(i+1)%4]] ^ M[13][a[(i+2)%4]] ^ M[9][a[(i+3)%4]] for i in range(4)]
            s = n
    return bytes(s)
def blocks(p): return [p[i:i+16] for i in range(0, len(p), 16)]
def ecb(key, p): return b''.join(enc(key, b) for b in blocks(p))
def cbc(key, iv, p):
    o = b''
    for b in blocks(p): iv = enc(key, xor(b, iv)); o += iv
    return o
def cfb(key, iv, seg, p):
    o = b''; r = iv
    for i in range(0, len(p), seg):
        c = bytes(xor(p[i:i+seg], enc(key, r))); o += c; r = (r + c)[-16:]
    return o
def ofb(key, iv, p):
    o = b''
    for b in blocks(p): iv = enc(key, iv); o += bytes(xor(b, iv))
    return o
def ctr(key, n, p):
    o = b''
    for j, b in enumerate(blocks(p)): o += bytes(xor(b, enc(key, ((n + j) % 2**128).to_bytes(16, 'big'))))
    return o
if __name__ == '__main__':
    h = bytes.fromhex
    p = h('00112233445566778899aabbccddeeff')
    assert enc(bytes(range(16)), p) == h('69c4e0d86a7b0430d8cdb78070b4c55a'); assert enc(bytes(range(24)), p) == h('dda97ca4864cdfe06eaf70a0ec0d7191')
    assert enc(bytes(range(32)), p) == h('8ea2b7ca516745bfeafc49904b496089')
    for n in (16, 24, 32): assert dec(bytes(range(n)), enc(bytes(range(n)), p)) == p
    k = h('2b7e151628aed2a6abf7158809cf4f3c'); iv = bytes(range(16)); p = h('6bc1bee22e409f96e93d7e117393172a')
    assert ecb(k, p) == h('3ad77bb40d7a3660a89ecaf32466ef97'); assert cbc(k, iv, p) == h('7649abac8119b246cee98e9b12e9197d')
    assert cfb(k, iv, 1, p)[:4] == h('3b79424c'); assert cfb(k, iv, 16, p) == h('3b3fd92eb72dad20333449f8e83cfb4a') == ofb(k, iv, p)
    assert ctr(k, int('f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff', 16), p) == h('874d6191b620e3261bef6864990db6ce')
    print('ok')
