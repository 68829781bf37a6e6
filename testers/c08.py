from nbc.util.ecdsa import numbertheory as N, curves as C
def prime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(b, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def leg(a, p): r = pow(a, (p - 1) // 2, p); return -1 if r == p - 1 else r
def root(T, a, p):
    w = leg(a, p)
    if w == -1: T.raises(N.SquareRootError, N.square_root_mod_prime, a, p); return
    r = N.square_root_mod_prime(a, p); T.ok(0 <= r < p and (r * r - a) % p == 0, 'a square root', r)
def jac(T, a, ps):
    n = w = 1
    for p in ps: n *= p; w *= leg(a, p)
    T.eq(N.jacobi(a, n), w, 'Jacobi symbol')
def bigprime(T, bits, mod8=None):
    n = T.rng.getrandbits(bits) | 1 << (bits - 1) | 1
    while not prime(n) or (mod8 and n % 8 != mod8): n += 2
    return n
def run(T):
    ps = [p for p in range(3, 700) if prime(p)]
    for p in ps[:60]:
        for a in range(p): T.case(root, a, p)
    for i, p in enumerate(ps[:16]):
        for a in range(-2 * p, 3 * p): T.case(jac, a, [p])
        for q in ps[:16]:
            for a in (0, 1, 2, 3, 4, 5, 6, 7, 12, -1, -3, p, q, p * q, p * q - 1, p * q + 2, T.rng.randint(-10 ** 6, 10 ** 6)): T.case(jac, a, [p, q]); T.case(jac, a, [p, q, 3])
    for p in ps[60:]:
        for a in (0, 1, 2, 3, 4, p - 1, p - 2, p - 4, (p + 1) // 2, T.rng.randrange(p), T.rng.randrange(p)): T.case(root, a, p)
    big = [c.curve.p() for c in C.curves] + [2 ** 255 - 19, 2 ** 127 - 1, 2 ** 521 - 1, 65537, 12289, 40961, 998244353, 3 * 2 ** 30 + 1]
    for p in big:
        for a in (0, 1, 2, 3, 4, 7, p - 1, p - 3, p - 4, T.below(p), T.below(p)): T.case(root, a, p); T.case(jac, a, [p]); T.case(jac, a, [p, 3]); T.case(jac, a - p, [p, 5, 5])
    for x in T.hints:
        if isinstance(x.get('a'), int) and isinstance(x.get('p'), int) and x['p'] > 2 and prime(x['p']): T.case(root, x['a'] % x['p'], x['p'])
    while T.more(1):
        b = T.rng.choice((8, 12, 16, 20, 32, 64, 128, 256)); p = bigprime(T, b, T.rng.choice((1, 1, 3, 5, 7))); a = T.below(p)
        T.case(root, a, p); T.case(root, a * a % p, p); T.case(jac, T.rng.choice((-1, 1)) * T.rng.getrandbits(300), [p] + T.rng.choices(ps, k=T.rng.randint(0, 3)))
