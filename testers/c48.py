"""the supported curves and what they announce"""
from nbc.util.ecdsa import curves as CV, ellipticcurve as EC, der as D
from specs.primes import STANDARD
from testers import ref
class Base(object):
    def __init__(self, n): self.n = n
    def order(self): return self.n
def announce(T, n, oid):
    g = Base(n); cv = EC.CurveFp(23, 1, 1); k = CV.Curve('some', cv, g, tuple(oid)); w = 1
    while n >> (8 * w): w += 1
    T.eq((k.order, k.baselen, k.verifying_key_length, k.signature_length, k.oid), (n, w, 2 * w, 2 * w, tuple(oid)), 'order and lengths')
    T.ok(k.name == 'some' and k.curve is cv and k.generator is g, 'name, curve, generator'); T.eq(k.encoded_oid, D.encode_oid(*oid), 'identifier')
def curve(T, i):
    T.eq(sorted(k.name for k in CV.curves), sorted(STANDARD), 'supported'); name = sorted(STANDARD)[i]; k = [k for k in CV.curves if k.name == name][0]
    oid, p, a, b, x, y, n = STANDARD[name]; c, g = k.curve, k.generator
    T.eq((c.p(), c.a() % p, c.b() % p, g.x(), g.y(), g.order(), k.order), (p, a, b, x, y, n, n), 'parameters'); T.eq(tuple(k.oid), oid, 'identifier'); T.eq(k.encoded_oid, D.encode_oid(*oid), 'encoded identifier')
    T.ok(g.curve() is c and c.contains_point(x, y), 'base point'); w = (n.bit_length() + 7) // 8
    T.eq((k.baselen, k.verifying_key_length, k.signature_length), (w, 2 * w, 2 * w), 'lengths')
def multiple(T, i, m):
    name = sorted(STANDARD)[i]; k = [k for k in CV.curves if k.name == name][0]; oid, p, a, b, x, y, n = STANDARD[name]; R = ref.EC(p, a, b, (x, y), n); w = R.mul(m % n, (x, y)); q = k.generator * m
    T.ok((q == EC.INFINITY) if w is None else (q.x() % p, q.y() % p) == w, 'multiple of the base point', name, m)
def run(T):
    R = T.rng
    for h in T.hints:
        if isinstance(h.get('order'), int) and h['order'] > 0: T.case(announce, h['order'], (1, 3, 132, 0, 10))
    for i in range(len(STANDARD)): T.case(curve, i)
    for s in range(1, 67):
        for d in (-1, 0, 1): T.case(announce, max(1, (1 << 8 * s) + d), (1, 3, s)); T.case(announce, max(1, (1 << 8 * s - 4) + d), (2, s % 40))
    for i in range(len(STANDARD)):
        n = STANDARD[sorted(STANDARD)[i]][-1]
        for m in (1, 2, n - 1, n, n + 1): T.case(multiple, i, m)
    while T.more(1): T.case(announce, T.below(1 << R.randrange(1, 600)) + 1, [R.randrange(3), R.randrange(40)] + [T.below(1 << R.randrange(1, 70)) for _ in range(R.randrange(6))]); T.case(multiple, R.randrange(6), T.below(1 << 200))
