from nbc.util.ecdsa import numbertheory as N
import math
def inv(T, a, m):
    if math.gcd(a, m) != 1:
        try: r = N.inverse_mod(a, m)
        except Exception: return
        T.ok(False, 'refused', r); return
    r = N.inverse_mod(a, m); T.ok(0 < r < m and (r * a - 1) % m == 0, 'the inverse', r)
def gcd(T, xs):
    w = 0
    for x in xs: w = math.gcd(w, x)
    T.eq(N.gcd(list(xs)), w, 'gcd of a list'); T.eq(N.gcd(tuple(xs)), w, 'gcd of a tuple')
    T.eq(N.gcd(*xs), w, 'gcd of arguments')
    if len(xs) == 2: T.eq(N.gcd2(*xs), w, 'gcd2')
def lcm(T, xs):
    w = 1
    for x in xs: w = w * x // math.gcd(w, x)
    T.eq(N.lcm(list(xs)), w, 'lcm of a list'); T.eq(N.lcm(*xs), w, 'lcm of arguments')
    if len(xs) == 2: T.eq(N.lcm2(*xs), w, 'lcm2')
def big(T): return T.rng.getrandbits(T.rng.choice((2, 4, 8, 16, 64, 256, 521)))
def common(T, n, lo):
    g = max(lo, big(T) if T.rng.random() < .6 else 1); return [max(lo, g * T.rng.randint(lo, T.rng.choice((3, 40, 10 ** 6)))) for _ in range(n)]
def run(T):
    for m in range(2, 130):
        for a in range(-m - 2, 2 * m + 3): T.case(inv, a, m)
    for a in range(0, 40):
        for b in range(0, 40):
            T.case(gcd, [a, b])
            if a and b: T.case(lcm, [a, b])
    fib = [1, 1]
    while len(fib) < 800: fib.append(fib[-1] + fib[-2])
    for i in (10, 50, 200, 400, 799): T.case(inv, fib[i - 1], fib[i]); T.case(inv, -fib[i], fib[i - 1]); T.case(gcd, [fib[i], fib[i - 1]]); T.case(lcm, [fib[i], fib[i - 1]])
    for e in (8, 16, 31, 32, 53, 63, 64, 65, 127, 128, 160, 255, 256, 257, 521):
        for d in (-1, 0, 1):
            m = (1 << e) + d
            for a in (1, 2, 3, m - 1, m + 1, -1, m // 2, m // 2 + 1, m * m + 1, -m, 0, m, 2 * m): T.case(inv, a, m); T.case(gcd, [abs(a), m])
    for x in T.hints:
        if isinstance(x.get('m'), int) and isinstance(x.get('a'), int) and x['m'] > 1: T.case(inv, x['a'], x['m'])
        if isinstance(x.get('a'), int) and isinstance(x.get('b'), int): T.case(gcd, [abs(x['a']), abs(x['b'])])
    while T.more(1):
        m = 2 + big(T); T.case(inv, T.rng.choice((-1, 1)) * big(T), m); T.case(inv, T.rng.choice((-1, 1)) * big(T) * m + T.rng.randint(-3, 3), m)
        T.case(gcd, common(T, T.rng.choice((2, 2, 3, 5, 20)), 0)); T.case(lcm, common(T, T.rng.choice((2, 2, 3, 5)), 1)); T.case(gcd, [big(T)] if T.rng.random() < .1 else [big(T), big(T)])
