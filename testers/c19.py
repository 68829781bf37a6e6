from nbc.util.pyaes import aes as A
from . import refaes as R
def cut(d, cuts):
    out = []; i = 0
    for c in cuts: out.append(d[i:i+c]); i += c
    if i < len(d): out.append(d[i:])
    return out
def want(mode, key, iv, seg, p):
    v = iv if iv is not None else bytes(16)
    return {'ecb': lambda: R.ecb(key, p), 'cbc': lambda: R.cbc(key, v, p), 'cfb': lambda: R.cfb(key, v, seg, p), 'ofb': lambda: R.ofb(key, v, p),
            'ctr': lambda: R.ctr(key, 1 if iv is None else int.from_bytes(iv, 'big'), p)}[mode]()
def make(mode, key, iv, seg):
    c = A.AESModesOfOperation[mode]
    if mode == 'ecb': return c(key)
    if mode == 'cfb': return c(key, iv, segment_size=seg)
    if mode == 'ctr': return c(key) if iv is None else c(key, A.Counter(int.from_bytes(iv, 'big')))
    return c(key) if iv is None else c(key, iv)
def history(T, mode, key, iv, seg, p, cuts, cuts2):
    e, d = make(mode, key, iv, seg), make(mode, key, iv, seg)
    out = [(x, e.encrypt(x)) for x in cut(p, cuts)]
    for x, y in out: T.ok(type(y) is bytes, 'bytes', y)
    c = b''.join(y for x, y in out)
    T.eq(c, want(mode, key, iv, seg, p), '%s ciphertext of the calls %s' % (mode, [len(x) for x, y in out]))
    T.eq(b''.join(d.decrypt(x) for x in cut(c, cuts2)), p, '%s decryption' % mode)
def counter(T, v, k):
    c = A.Counter(v)
    for i in range(k):
        T.eq(bytes(c.value), ((v + i) % 2**128).to_bytes(16, 'big'), 'counter value after %d increments' % i); c.increment()
def wrong(T, mode, n, seg):
    e = make(mode, bytes(16), bytes(16), seg)
    T.raises(ValueError, e.encrypt, bytes(n)); T.raises(ValueError, e.decrypt, bytes(n))
    k = seg if mode == 'cfb' else 16
    T.eq(e.encrypt(bytes(k)), want(mode, bytes(16), bytes(16), seg, bytes(k)), 'the next call after a refused one')
def wrongparam(T, mode, nk, niv):
    T.raises(ValueError, make, mode, bytes(nk), bytes(niv), 1)
def cuts(T, n, g):
    out = []
    while n > 0:
        k = min(n, g * T.rng.choice((0, 1, 1, 2, 3, T.rng.randint(0, 40)))) if g < 16 or g == 99 else g
        out.append(k); n -= k
    return out
def one(T, mode, seg, n, iv='r'):
    g = {'ecb': 16, 'cbc': 16, 'cfb': seg, 'ofb': 1, 'ctr': 1}[mode]
    n -= n % g
    p = T.bytes(n); key = T.bytes(T.rng.choice((16, 24, 32)))
    if iv == 'r': iv = T.rng.choice((None, T.bytes(16), T.bytes(16), b'\xff' * 16, (2**128 - T.rng.randint(1, 5)).to_bytes(16, 'big'), T.rng.randint(0, 2**16).to_bytes(16, 'big'),
        bytes(T.rng.randint(0, 15)) + b'\xff' * 16)) if True else iv
    if iv is not None: iv = iv[:16]
    blk = mode in ('ecb', 'cbc')
    c = lambda: [16] * (n // 16) if blk else cfbcuts(T, n, g)
    T.case(history, mode, key, iv, seg, p, c(), c())
def cfbcuts(T, n, g):
    out = []
    while n > 0:
        k = min(n, g * T.rng.choice((0, 1, 1, 2, 3, 15 // g, 16 // g, 17 // g, T.rng.randint(0, 40)))); out.append(k); n -= k
    return out
def run(T):
    for h in T.hints:
        if isinstance(h.get('value'), bytes) and len(h['value']) == 16: T.case(counter, int.from_bytes(h['value'], 'big'), 2)
    for v in (0, 1, 2**128 - 1, 2**128 - 2, 2**127 - 1): T.case(counter, v, 5)
    for i in range(1, 17): T.case(counter, 256**i - 1, 3); T.case(counter, 256**i - 2, 3); T.case(counter, (5 * 256**i - 1) % 2**128, 3)
    T.case(counter, 0, 700)
    for m in ('ecb', 'cbc'):
        for n in list(range(16)) + [17, 31, 32, 48]: T.case(wrong, m, n, 1)
    for s in range(2, 17):
        for n in range(1, 50):
            if n % s: T.case(wrong, 'cfb', n, s)
    for m in ('cbc', 'cfb', 'ofb'):
        for n in list(range(16)) + [17, 24, 32]: T.case(wrongparam, m, 16, n)
    for m in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
        for n in (0, 1, 15, 17, 23, 25, 31, 33, 64): T.case(wrongparam, m, n, 16)
    for m in ('ecb', 'cbc', 'ofb', 'ctr'):
        for n in (0, 16, 32, 80): one(T, m, 1, n, None); one(T, m, 1, n, b'\xff' * 16)
    for s in range(0, 17): 
        if s: one(T, 'cfb', s, 60 + s, None); one(T, 'cfb', s, 200)
    T.case(history, 'cfb', bytes(16), bytes(16), 1, b'hello world', [3], [5])
    while T.more():
        one(T, T.rng.choice(('ecb', 'cbc', 'ofb', 'ctr', 'ofb', 'ctr')), 1, T.rng.randint(0, 120))
        one(T, 'cfb', T.rng.randint(1, 16), T.rng.randint(0, 120))
        T.case(counter, T.below(2**128), 3)
