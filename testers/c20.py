from nbc.util.pyaes import aes as A, blockfeeder as B, util as U
from . import refaes as R
from .c19 import make, want
def pad(T, d):
    p = U.append_PKCS7_padding(d); k = 16 - len(d) % 16
    T.eq(p, d + bytes([k]) * k, 'padded'); T.eq(U.strip_PKCS7_padding(p), d, 'stripped')
def strip(T, d):
    if not d: T.raises(Exception, U.strip_PKCS7_padding, d)
    elif len(d) % 16 or not 1 <= d[-1] <= 16: T.raises(ValueError, U.strip_PKCS7_padding, d)
    else: T.eq(U.strip_PKCS7_padding(d), d[:-d[-1]], 'stripped')
def pieces(d, cuts):
    i = 0
    for c in cuts:
        if d[i:i+c]: yield d[i:i+c]
        i += c
    if i < len(d): yield d[i:]
def fed(f, ps, reuse):
    """the pieces, as bytes or all in one buffer of the caller"""
    for x in ps:
        if reuse: b = bytearray(x); r = f.feed(b); b[:] = bytes(len(b)); yield bytes(r)
        else: yield f.feed(x)
def stream(T, mode, key, iv, seg, p, cuts, cuts2, reuse=False):
    e = B.Encrypter(make(mode, key, iv, seg)); c = b''
    for x in fed(e, pieces(p, cuts), reuse): c += x
    c += e.feed()
    if mode in ('ecb', 'cbc'): k = 16 - len(p) % 16; w = want(mode, key, iv, seg, p + bytes([k]) * k)
    elif mode == 'cfb': w = want(mode, key, iv, seg, p + bytes(-len(p) % seg))[:len(p)]
    else: w = want(mode, key, iv, seg, p)
    T.eq(c, w, '%s ciphertext of pieces %s' % (mode, cuts))
    d = B.Decrypter(make(mode, key, iv, seg)); o = b''
    for x in fed(d, pieces(c, cuts2), reuse): o += x
    o += d.feed()
    T.eq(o, p, '%s plaintext from pieces %s' % (mode, cuts2))
    T.raises(ValueError, d.feed, b'x'); T.raises(ValueError, e.feed, b'x'); T.raises(ValueError, e.feed)
def cuts(T, n):
    out = []
    while n > 0 and T.rng.random() < 0.95:
        k = min(n, T.rng.choice((1, 1, 2, 3, 5, 7, 15, 16, 17, 31, 32, 33, T.rng.randint(1, 60)))); out.append(k); n -= k
    return out
def run(T):
    for h in T.hints:
        if isinstance(h.get('d'), bytes): T.case(pad, h['d']); T.case(strip, h['d'])
    for n in range(0, 100): T.case(pad, bytes(n)); T.case(pad, b'\x10' * n); T.case(pad, b'\x01' * n); T.case(strip, bytes([1]) * n)
    for n in (16, 32, 48):
        for b in range(256): T.case(strip, bytes([7]) * (n - 1) + bytes([b])); T.case(strip, bytes([b]) * n)
    T.case(strip, b'')
    for m in ('ecb', 'cbc', 'ofb', 'ctr'):
        for n in list(range(0, 50)):
            T.case(stream, m, bytes(16), bytes(16), 1, bytes(range(n)), [], []); T.case(stream, m, bytes(16), None, 1, bytes(range(n)), [1] * n, [1] * (n + 16)); T.case(stream, m, bytes(16), bytes(16), 1, bytes(range(n)), [8] * n, [5] * n, True)
    for s in range(1, 17):
        for n in (0, 1, 15, 16, 17, 31, 32, 33, 40, 64): T.case(stream, 'cfb', bytes(16), bytes(16), s, bytes(range(n)), cuts(T, n), cuts(T, n))
    for m, n, s in (('ctr', 70001, 1), ('cbc', 9000, 1), ('cfb', 9001, 3), ('cfb', 9000, 7), ('cfb', 5000, 16), ('ofb', 5003, 1), ('ecb', 4500, 1)): T.case(stream, m, bytes(range(16)), bytes(16), s, bytes(i * 7 % 251 for i in range(n)), [n], [n])
    while T.more():
        m = T.rng.choice(('ecb', 'cbc', 'cfb', 'cfb', 'ofb', 'ctr')); n = T.rng.randint(0, 120)
        T.case(stream, m, T.bytes(T.rng.choice((16, 24, 32))), T.rng.choice((None, T.bytes(16))), T.rng.randint(1, 16), T.bytes(n), cuts(T, n), cuts(T, n), T.rng.random() < 0.3)
        d = T.bytes(0, 80); T.case(pad, d); T.case(strip, d)
