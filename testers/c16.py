from nbc.util.ecdsa import util as U, keys as K, curves as C
import hashlib, os, math
def width(n): return max(1, (n.bit_length() + 7) // 8)
class Src(object):
    def __init__(self, blocks, rest): self.b, self.rest, self.n, self.want = list(blocks), rest, 0, None
    def __call__(self, n):
        self.n += 1
        if self.want is None: self.want = n
        b = self.b.pop(0) if self.b else self.rest
        return b.to_bytes(n, 'big') if isinstance(b, int) else b
def rand(T, order, blocks, rest):
    w = width(order); s = Src(blocks, rest); m = (1 << 8 * w) - 1; s.b = [b & m for b in s.b]; s.rest &= m
    seq = s.b + [s.rest] * 1; good = [v + 1 for v in seq if v + 1 < order]
    if not good: T.raises(RuntimeError, U.randrange, order, s); T.ok(s.n < 10 ** 6, 'draws'); return
    if good and len(blocks) > 200: pass
    r = U.randrange(order, s); T.eq(r, good[0], 'secret'); T.eq(s.want, w, 'block length')
def default(T, order):
    r = U.randrange(order); T.ok(1 <= r < order, 'in range', r)
def keygen(T, name, blocks):
    cv = getattr(C, name); s = Src([b % (1 << 8 * width(cv.order)) for b in blocks], 5); seq = s.b + [5]; want = [v + 1 for v in seq if v + 1 < cv.order][0]
    sk = K.SigningKey.generate(curve=cv, entropy=s); T.eq(sk.privkey.secret_multiplier, want, 'secret of the key')
def prng(seed, n):
    out = b''; i = 0
    while len(out) < n: out += hashlib.sha256(('prng-%d-%s' % (i, seed)).encode()).digest(); i += 1
    return out[:n]
def width_bits(order): return int(math.log(order - 1, 2) + 1)
def seeded(T, seed, order):
    a = U.randrange_from_seed__overshoot_modulo(seed, order)
    T.eq(a, int.from_bytes(prng(seed, 2 * width(order)), 'big') % (order - 1) + 1, 'overshoot'); T.eq(U.randrange_from_seed__overshoot_modulo(seed, order), a, 'again')
    b = U.randrange_from_seed__trytryagain(seed, order); T.ok(1 <= b < order, 'try again: in range', b); T.eq(U.randrange_from_seed__trytryagain(seed, order), b, 'again')
    n = width_bits(order); T.ok(n >= (order - 1).bit_length(), 'wide enough', n); w = (n + 7) // 8; k = 0
    while True:
        v = int.from_bytes(prng(seed, (k + 1) * w)[k * w:], 'big') % (1 << n) + 1; k += 1
        if v < order: break
    T.eq(b, v, 'the first block in range')
def trunc(T, seed, order, hf):
    h = getattr(hashlib, hf); n = width_bits(order); w = (n + 7) // 8; d = h(seed).digest()[:w].rjust(w, b'\0'); v = int.from_bytes(d, 'big')
    for f, want in ((U.randrange_from_seed__truncate_bytes, v + 1), (U.randrange_from_seed__truncate_bits, v % (1 << n) + 1)):
        if want < order: T.eq(f(seed, order, h), want, 'the leading part of the hash')
        else: T.raises((AssertionError, ValueError), f, seed, order, h)
def order(T):
    r = T.rng.random()
    if r < .3: return T.rng.choice([c.order for c in C.curves])
    if r < .5: return T.rng.randint(2, 300)
    return max(2, (1 << T.rng.randint(1, 530)) + T.rng.randint(-3, 3)) if r < .8 else 2 + T.rng.getrandbits(T.rng.randint(1, 300))
def run(T):
    for o in list(range(2, 600)) + [1 << k for k in range(1, 200)] + [(1 << k) + d for k in (8, 16, 24, 32, 256) for d in (-1, 1)]:
        m = 256 ** width(o)
        T.case(rand, o, [], m - 1); T.case(rand, o, [m - 1, o - 1, o, max(o - 2, 0)], 0); T.case(rand, o, [], max(o - 2, 0)); T.case(rand, o, [], o - 1); T.case(seeded, 'seed', o); T.case(trunc, b'seed %d' % o, o, 'sha256')
    for c in C.curves:
        for hf in ('sha1', 'sha256', 'sha512'): T.case(trunc, b'curve', c.order, hf)
    for c in C.curves: T.case(keygen, c.name, [c.order, (1 << 600) - 1, c.order - 1, c.order - 2, 7])
    T.case(rand, 251, [255] * 5000, 3)
    while T.more():
        o = order(T); T.case(rand, o, [T.rng.choice((T.rng.getrandbits(600), o, o - 1, o - 2)) for _ in range(T.rng.randint(0, 6))], T.rng.choice((0, o - 2, T.rng.randrange(o)))); T.case(default, o)
        T.case(seeded, T.rng.choice(('', 'seed', 'x%d' % T.rng.getrandbits(40), T.rng.getrandbits(30))), o)
        T.case(trunc, T.bytes(0, 40), o, T.rng.choice(('md5', 'sha1', 'sha256', 'sha512')))
        if T.rng.random() < .02: T.case(keygen, T.rng.choice(C.curves).name, [T.rng.getrandbits(600) for _ in range(3)])
