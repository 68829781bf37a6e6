"""Small curves of prime order, and the supported ones, with independent arithmetic."""
from nbc.util.ecdsa import ellipticcurve as E, curves as C
from testers import ref
# p, a, b, G, n
TOY = []
def find(p, want):
    for a in (-3, 0, 1, 2, 5):
        for b in range(1, p):
            if (4 * a ** 3 + 27 * b * b) % p == 0: continue
            ps = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]; n = len(ps) + 1
            if n > 2 and all(n % q for q in range(2, int(n ** .5) + 1)) and want(n, p): return (p, a, b, ps[len(ps) // 3], n)
CURVES = {}
def build():
    if TOY: return
    for p in (5, 7, 11, 13, 23, 61, 131, 283):
        for w in (lambda n, p: n > p, lambda n, p: n < p):
            t = find(p, w)
            if t: TOY.append(t)
def get(i):
    """(curve object, reference group) number i; supported curves come last (negative numbers)"""
    build()
    if i not in CURVES:
        if i < 0:
            c = C.curves[-1 - i]; R = ref.EC(c.curve.p(), c.curve.a() % c.curve.p(), c.curve.b() % c.curve.p(), (c.generator.x(), c.generator.y()), c.order); CURVES[i] = c, R
        else:
            p, a, b, G, n = TOY[i]; cf = E.CurveFp(p, a, b)
            CURVES[i] = C.Curve('toy%d' % i, cf, E.Point(cf, G[0], G[1], n), (1, 3, 9999, i)), ref.EC(p, a % p, b % p, G, n)
    return CURVES[i]
NTOY = lambda: (build(), len(TOY))[1]
