from nbc.util import piecewise as W
from testers import ref
from testers.c17 import leading
N = ref.N256k1
def b(v): return v.to_bytes(32, 'big')
def read(T, t):
    d = ref.dec58(t); T.ok(len(d) == 37 and d[0] == 0x80 and ref.sha256d(d[:-4])[:4] == d[-4:], 'not an uncompressed private key', t); return int.from_bytes(d[1:33], 'big')
def split(T, d, n):
    ps = W.split_private_key(ref.wif(b(d), False), n) if n else W.split_private_key(ref.wif(b(d), False))
    T.eq(len(ps), n or 2, 'parts'); ss = [read(T, p) for p in ps]; T.ok(all(0 <= s < N for s in ss), 'a part out of range'); T.eq(sum(ss) % N, d, 'the parts add up')
    T.ok(n == 1 or 0 < ss[0] < N and d == 0 or len(set(ss)) > 1 or N < 1 << 20, 'equal parts')
    T.eq(W.combine_private_keys(ps), ref.wif(b(d), False), 'combined'); T.eq(W.combine_private_keys(ps[::-1]), ref.wif(b(d), False), 'combined in another order')
def repeated(T, d, n, x):
    """the random source happens to give the same bytes again"""
    import os
    real = os.urandom; os.urandom = lambda k: bytes([x]) * k
    try: ps = W.split_private_key(ref.wif(b(d), False), n)
    finally: os.urandom = real
    T.eq(len(ps), n, 'parts'); T.eq(sum(read(T, p) for p in ps) % N, d, 'the parts add up, of a source that repeats itself'); T.eq(W.combine_private_keys(ps), ref.wif(b(d), False), 'combined')
def combine(T, ds, cs): T.eq(W.combine_private_keys([ref.wif(b(d), c) for d, c in zip(ds, cs)]), ref.wif(b(sum(ds) % N), False), 'combined')
def address(T, x, y, c, vcn, ver):
    s = (x + y) % N; kw = {} if ver is None else dict(version=ver)
    if s: T.eq(W.get_address(ref.pub(x), ref.wif(b(y), c), vcn, **kw), ref.address(ref.pub(s), vcn, ver or b'\0'), 'address')
def bad(T, k): T.raises(ValueError, W.get_address, k, ref.wif(b(7), False), 0)
def run(T):
    E = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, 1 << 255]
    for d in [0] + E:
        for n in (None, 1, 2, 3, 5, 16): T.case(split, d, n)
    for d in E:
        for n in (1, 2, 3, 4, 7): T.case(repeated, d, n, 1 + d % 200)
    for x in E:
        for y in E: T.case(combine, [x, y], [False, x % 2 == 1]); T.case(address, x, y, x % 3 == 0, 0, None)
    T.case(combine, [N - 1] * 20, [True] * 20); T.case(combine, [5], [True]); T.case(split, 12345, 300)
    for k in leading(10): T.case(address, k - 1, 1, False, 0x7fff, b'\x6f'); T.case(address, k + 1, N - 1, True, 0x10001, b'\0')
    g = ref.pub(5); z = ref.pub(5, True)
    for k in [z, b'', g[:64], g + b'\0', b'\4', b'\4' + z] + [bytes([p]) + g[1:] for p in range(256) if p != 4]: T.case(bad, k)
    for h in T.hints:
        f = lambda n: h[n] % N if isinstance(h.get(n), int) else 7
        T.case(split, f('secret'), min(h.get('count', 2), 50)); T.case(combine, [f('a'), f('b')], [False, True])
        if f('a') and f('b'): T.case(address, f('a'), f('b'), False, f('vcn') % 65536, None)
    while T.more():
        r = T.rng.random()
        if r < .3: T.case(split, T.below(N), T.rng.choice((None, 1, 2, 3, 4, 10, T.rng.randint(1, 60))))
        elif r < .6: n = T.rng.randint(1, 8); T.case(combine, [T.below(N) for _ in range(n)], [T.rng.random() < .5 for _ in range(n)])
        else: T.case(address, 1 + T.below(N - 1), 1 + T.below(N - 1), T.rng.random() < .5, T.below(1 << 17), T.rng.choice((None, b'\0', b'\x6f', T.bytes(1))))
