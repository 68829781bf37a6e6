from nbc.util.ecdsa import util as U, der as D, curves
from nbc.util import ecc
from testers.ref import orderlen, dersig, derlen
ORDERS = [c.order for c in curves.curves] + [2, 3, 5, 251, 255, 256, 257, 65521, 65537, (1 << 61) - 1, (1 << 521) - 1, 1 << 520, (1 << 528) + 1, 255 ** 3]
def enc(T, n, r, s):
    L = orderlen(n); f = lambda x: x.to_bytes(L, 'big'); low = s if s <= n // 2 else n - s
    for t, a, b, d in ((s, U.sigencode_string, U.sigencode_strings, U.sigencode_der), (low, U.sigencode_string_canonize, U.sigencode_strings_canonize, U.sigencode_der_canonize)):
        T.eq(a(r, s, n), f(r) + f(t), 'string'); T.eq(tuple(b(r, s, n)), (f(r), f(t)), 'strings'); T.eq(d(r, s, n), dersig(r, t), 'DER')
        T.eq(tuple(U.sigdecode_string(f(r) + f(t), n)), (r, t), 'string decoded'); T.eq(tuple(U.sigdecode_strings((f(r), f(t)), n)), (r, t), 'strings decoded')
        T.eq(tuple(U.sigdecode_der(dersig(r, t), n)), (r, t), 'DER decoded'); T.eq(tuple(ecc.sigdecode_der(dersig(r, t), n)), (r, t), 'DER decoded liberally')
def strict(T, n, r, s, j):
    L = orderlen(n); f = lambda x: x.to_bytes(L, 'big'); bad = (AssertionError, D.UnexpectedDER); d = dersig(r, s); body = d[len(d) - len(derbody(d)):]
    T.raises(bad, U.sigdecode_der, d + j, n); T.raises(bad, U.sigdecode_der, b'\x30' + derlen(len(body + j)) + body + j, n)
    T.raises(bad, U.sigdecode_string, f(r) + f(s) + j, n); T.raises(bad, U.sigdecode_strings, (f(r) + j, f(s)), n); T.raises(bad, U.sigdecode_strings, (f(r), f(s) + j), n)
    T.raises(bad, U.sigdecode_string, (f(r) + f(s))[:-1], n); T.raises(bad, U.sigdecode_strings, (f(r), f(s)[:-1]), n)
def derbody(d): return d[2:] if d[1] < 128 else d[2 + (d[1] & 127):]
def run(T):
    for h in T.hints:
        n, r, s = (h.get(k) for k in ('order', 'r', 's'))
        if all(isinstance(x, int) for x in (n, r, s)) and n < 1 << 900:
            if 0 < r < n and 0 < s < n: T.case(enc, n, r, s)
    for n in ORDERS:
        e = sorted({x for x in [1, 2, 127, 128, 129, 255, 256, n - 1, n - 2, n // 2, n // 2 + 1, n // 2 - 1, (n + 1) // 2, n // 4, n // 256, n // 512] + [(1 << b) + d for b in range(7, n.bit_length() + 1, 8) for d in (-1, 0)] if 0 < x < n})
        for r in e:
            for s in (e if len(e) < 20 else T.rng.sample(e, 8) + [n // 2, n // 2 + 1, n - 1, 1]): T.case(enc, n, r, s)
    while T.more():
        n = T.rng.choice(ORDERS) if T.rng.random() < .7 else 2 + T.below(1 << T.rng.choice((8, 16, 40, 100, 256, 400)))
        T.case(enc, n, 1 + T.below(n - 1), 1 + T.below(n - 1)); T.case(strict, n, 1 + T.below(n - 1), 1 + T.below(n - 1), T.bytes(1, 4))
