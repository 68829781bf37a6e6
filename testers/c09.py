from nbc.util.ecdsa import ellipticcurve as E, curves as C
from testers import ref
CACHE = {}
def curve(p, a, b):
    k = (p, a, b)
    if k not in CACHE: CACHE[k] = E.CurveFp(p, a, b), ref.EC(p, a % p, b % p)
    return CACHE[k]
def mk(cv, P, n=None): return E.INFINITY if P is None else E.Point(cv, P[0], P[1], n) if n else E.Point(cv, P[0], P[1])
def same(T, cv, p, r, w, what):
    if w is None: T.ok(r == E.INFINITY, what + ': infinity', str(r)); return
    T.ok(r != E.INFINITY, what + ': finite'); T.eq((r.x(), r.y()), w, what); T.ok(r.curve() is cv, what + ': curve'); T.ok(cv.contains_point(*w) and r == mk(cv, w), what + ': on the curve and equal')
def add(T, p, a, b, P, Q):
    cv, R = curve(p, a, b)
    same(T, cv, p, mk(cv, P) + mk(cv, Q), R.add(P, Q), 'sum')
    same(T, cv, p, mk(cv, P).double(), R.add(P, P), 'double'); X = mk(cv, P); same(T, cv, p, X + X, R.add(P, P), 'sum with itself')
    T.eq(mk(cv, P) == mk(cv, Q), P == Q, 'equality')
def mul(T, p, a, b, P, k, n=None):
    cv, R = curve(p, a, b); w = R.mul(k % n if n else k, P)
    same(T, cv, p, mk(cv, P, n) * k, w, 'multiple'); same(T, cv, p, k * mk(cv, P, n), w, 'multiple from the left')
def on(T, p, a, b, x, y):
    cv, R = curve(p, a, b); T.eq(bool(cv.contains_point(x, y)), R.on((x, y)), 'on the curve')
    try: E.Point(cv, x, y); ok = True
    except AssertionError: ok = False
    T.eq(ok, R.on((x, y)), 'constructed'); T.eq((cv.p(), cv.a(), cv.b()), (p, a, b), 'parameters')
def points(p, a, b): return [None] + [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
def order(R, P):
    k, S = 1, P
    while S is not None: S = R.add(S, P); k += 1
    return k
def run(T):
    for p in (3, 5, 7, 11):
        for a in range(p):
            for b in range(p):
                if (4 * a ** 3 + 27 * b * b) % p == 0: continue
                ps = points(p, a, b)
                for P in ps:
                    for Q in ps: T.case(add, p, a, b, P, Q)
                    if p < 8 or (a + b) % 3 == 0:
                        n = order(curve(p, a, b)[1], P)
                        for k in range(0, 3 * n + 2): T.case(mul, p, a, b, P, k)
                        if P:
                            for k in range(0, 2 * n + 2): T.case(mul, p, a, b, P, k, n)
                for x in range(p):
                    for y in range(-1, p + 1): T.case(on, p, a, b, x, y)
    for p, a, b in ((23, 1, 1), (29, -3, 7), (31, 30, 4), (101, 0, 3), (101, -3, 9)):
        ps = points(p, a, b)
        for P in ps:
            for Q in ps[:40]: T.case(add, p, a, b, P, Q)
            for k in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 21, 63, 64, 65, 1000, 12345): T.case(mul, p, a, b, P, k)
    for c in C.curves:
        p, a, b, n = c.curve.p(), c.curve.a(), c.curve.b(), c.order; G = (c.generator.x(), c.generator.y()); R = curve(p, a, b)[1]
        for k in (0, 1, 2, 3, n - 1, n, n + 1, n // 2, (n + 1) // 2): T.case(mul, p, a, b, G, k); T.case(mul, p, a, b, G, k, n)
        for i, j in ((1, 1), (1, 2), (2, n - 2), (3, n - 1), (5, 7)): T.case(add, p, a, b, R.mul(i, G), R.mul(j, G))
    for h in T.hints:
        try:
            p, a, b = h['p'], h['a'], h['b']
            if p < 4000:
                ps = points(p, a, b)
                for P in ps[:40]:
                    for Q in ps[:40]: T.case(add, p, a, b, P, Q)
                    T.case(mul, p, a, b, P, h.get('e', 5))
        except Exception: pass
    while T.more(.97):
        p = T.rng.choice((13, 17, 19, 37, 41, 97, 103, 251)); a, b = T.rng.randint(-p, p), T.rng.randint(-p, p)
        if (4 * a ** 3 + 27 * b * b) % p == 0: continue
        x = T.rng.randrange(p); ps = [(x, y) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
        x = T.rng.randrange(p); qs = [(x, y) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
        for P in ps:
            for Q in qs: T.case(add, p, a, b, P, Q)
            T.case(mul, p, a, b, P, T.rng.getrandbits(T.rng.choice((3, 6, 12, 64, 256))))
    while T.more(1):
        c = T.rng.choice(C.curves); p, a, b, n = c.curve.p(), c.curve.a(), c.curve.b(), c.order; G = (c.generator.x(), c.generator.y())
        T.case(mul, p, a, b, G, T.below(n), n); T.case(mul, p, a, b, G, T.rng.getrandbits(n.bit_length() + 8))
