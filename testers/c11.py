from nbc.util.ecdsa import ecdsa as E, keys as K, util as U, curves as C, der as D, ellipticcurve as EC
from nbc.util import ecc
from testers import ref, toy
P, N, R1 = ref.P256k1, ref.N256k1, ref.K1
PK = {}
def pk(i, d):
    if (i, d) not in PK:
        if len(PK) > 3000: PK.clear()
        cv, R = toy.get(i); Q = R.mul(d, R.G); Q = EC.Point(cv.curve, Q[0], Q[1]); PK[i, d] = E.Public_key(cv.generator, Q), K.VerifyingKey.from_public_point(Q, cv), R.mul(d, R.G)
    return PK[i, d]
def verify(T, i, d, z, r, s):
    cv, R = toy.get(i); k, vk, Q = pk(i, d); w = R.valid(z, Q, r, s); T.eq(k.verifies(z, E.Signature(r, s)), w, 'verification')
    L = ref.orderlen(R.n)
    if 0 <= z < 256 ** L:
        for dg in {z.to_bytes(L, 'big'), z.to_bytes(max(1, ref.orderlen(z)), 'big')}:
            f = lambda: vk.verify_digest('sig', dg, sigdecode=lambda a, n: (r, s) if (a, n) == ('sig', R.n) else None)
            if w: T.ok(f() is True, 'not accepted')
            else: T.raises(K.BadSignatureError, f)
            if 0 <= r < 256 ** L and 0 <= s < 256 ** L and z % 3 == 0:
                f = lambda: vk.verify_digest(r.to_bytes(L, 'big') + s.to_bytes(L, 'big'), dg)
                if w: T.ok(f() is True, 'not accepted')
                else: T.raises(K.BadSignatureError, f)
def byt(T, data, key, r, s):
    """the wallet's check, for any public key bytes and numbers"""
    Q = point(key); z = int.from_bytes(ref.sha256d(data), 'big')
    T.eq(ecc.verify(data, key, ref.dersig(r, s)), Q is not None and R1.valid(z, Q, r, s), 'verification')
def point(k):
    if len(k) == 65 and k[0] == 4:
        Q = int.from_bytes(k[1:33], 'big'), int.from_bytes(k[33:], 'big'); return Q if Q[0] < P and Q[1] < P and R1.on(Q) else None
    if len(k) == 33 and k[0] in (2, 3):
        x = int.from_bytes(k[1:], 'big'); y = R1.lift(x) if x < P else None
        return None if y is None else (x, y if (y ^ k[0]) & 1 == 0 else P - y)
def signs(T, data, key):
    g = ecc.sign(data, key); r, s = U.sigdecode_der(g, N); T.eq(g, ref.dersig(r, s), 'DER'); z = int.from_bytes(ref.sha256d(data), 'big')
    T.ok(R1.valid(z, R1.mul(int.from_bytes(key, 'big'), R1.G), r, s), 'not a valid signature')
    for pb in (ref.pub(key), ref.pub(key, True)):
        byt(T, data, pb, r, s); byt(T, data, pb, r, N - s); byt(T, data + b'x', pb, r, s); byt(T, data, pb, r + N, s); byt(T, data, pb, r, s + N); byt(T, data, pb, s, r)
def run(T):
    nc = len(C.curves)
    for i in range(toy.NTOY()):
        n = toy.get(i)[1].n; small = n <= 13
        for d in (range(1, n) if small else [1, 2, n - 1, 1 + T.below(n - 1), 1 + T.below(n - 1)]):
            for z in (range(0, n) if small else [0, 1, n - 1, n, n + 1, T.below(n)]):
                if not T.more(.35): break
                rs = range(-1, n + 2) if n <= 40 else sorted({-n, -1, 0, 1, 2, n - 1, n, n + 1, 2 * n + 1} | {T.rng.randint(-1, n + 1) for _ in range(15)} | {toy.get(i)[1].mul(k, toy.get(i)[1].G)[0] % n for k in range(1, 6)})
                for r in rs:
                    for s in (range(-1, n + 2) if small else {-1, 0, 1, n - 1, n, n + 1} | {T.rng.randint(1, n - 1) for _ in range(4)}): T.case(verify, i, d, z, r, s)
    for i in range(-nc, 0):
        cv, R = toy.get(i); n = R.n
        for d in (1, n - 1, 1 + T.below(n - 1)):
            k, z = 1 + T.below(n - 1), T.below(n); r, s = R.sign(d, z, k)
            T.case(verify, i, d, z, r, s)
            for a, b in ((0, 0), (0, s), (r, 0), (n, s), (r, n), (r + n, s), (r, s + n), (-r, s), (r, -s), (r, n - s), (n - 1, 1), (1, n - 1), (r, n + 1)): T.case(verify, i, d, z, a, b)
            T.case(verify, i, d, -r * d % n, r, s)                         # a sum at infinity
            if i == -nc: T.case(verify, i, d, -d % n, 1, 1)
        # the two summands are equal, so the sum is a double
        T.case(verify, i, 1, r, r, s)
    key = (7).to_bytes(32, 'big'); g = ref.pub(key); z = ref.pub(key, True); r, s = R1.sign(7, int.from_bytes(ref.sha256d(b'm'), 'big'), 12345)
    T.case(byt, b'm', g, r, s); T.case(byt, b'm', z, r, s); T.case(signs, b'm', key); T.case(signs, b'', (N - 1).to_bytes(32, 'big'))
    for k in (b'', b'\0', b'\4', b'\2', g[:-1], g + b'\0', z[:-1], z + b'\0', b'\5' + g[1:], b'\6' + g[1:], b'\7' + g[1:], b'\0' + g[1:], b'\1' + z[1:], b'\4' + z[1:], b'\2' + g[1:], b'\x82' + z[1:], bytes([5 - z[0]]) + z[1:],
              g[:64] + bytes([g[64] ^ 1]), g[:33] + bytes(32), b'\4' + bytes(64), b'\2' + bytes(32), b'\2' + (5).to_bytes(32, 'big'), b'\2' + b'\xff' * 32, b'\4' + b'\xff' * 64):
        T.case(byt, b'm', k, r, s)
    for x in range(1, 9):                                                 # coordinates written with p added
        y = R1.lift(x)
        if y: T.case(byt, b'm', b'\4' + (x + P).to_bytes(32, 'big') + y.to_bytes(32, 'big'), r, s); T.case(byt, b'm', b'\2' + (x + P).to_bytes(32, 'big'), r, s)
    for a, b in ((0, 0), (0, 1), (1, 0), (r, 0), (0, s), (N, s), (r, N), (r, N - s), (r + N, s), (r, s + N), (r, 2 * N - s), (1 << 256, s), (r, 1 << 300)): T.case(byt, b'm', g, a, b)
    for h in T.hints:
        for i in list(range(toy.NTOY())) + [-1]:
            n = toy.get(i)[1].n
            try: T.case(verify, i, h.get('secret', 1) % (n - 1) + 1, h.get('digest', 0), h.get('r', 1), h.get('s', 1))
            except TypeError: pass
    while T.more():
        x = T.rng.random(); i = T.rng.choice(range(-nc, toy.NTOY())); R = toy.get(i)[1]; n = R.n; d, z, k = 1 + T.below(n - 1), T.below(256 ** ref.orderlen(n)), 1 + T.below(n - 1)
        if x < .4:
            r, s = R.sign(d, z, k)
            if T.rng.random() < .5: z, r, s = (z + T.rng.choice((0, 1, n)), r + T.rng.choice((0, 0, n, 1)), T.rng.choice((s, n - s, s + n)))
            T.case(verify, i, d, z, r, s)
        elif x < .6: T.case(verify, i, d, z, T.below(n + 3), T.below(n + 3))
        elif x < .8: T.case(signs, T.bytes(0, 60), ref.key32(T))
        else:
            kb = ref.key32(T); T.case(byt, b'q', T.rng.choice((ref.pub(kb), ref.pub(kb, True), b'\4' + T.bytes(64), b'\3' + T.bytes(32), T.bytes(0, 70))), T.below(N + 5), T.below(N + 5))
