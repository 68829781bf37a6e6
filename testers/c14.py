from nbc.util.ecdsa import ecdsa as D, keys as K, curves as C, ellipticcurve as E
from testers import ref, toy
def pub_same(T, cv, vk, P, what):
    T.ok(vk.curve is cv and vk.pubkey.generator is cv.generator, what + ': another curve', vk.curve.name); T.eq((vk.pubkey.point.x(), vk.pubkey.point.y()), P, what + ': public point'); T.eq(vk.pubkey.order, cv.order, what + ': order')
def priv_same(T, cv, sk, d, P, what):
    T.ok(sk.curve is cv, what + ': another curve', sk.curve.name); T.eq(sk.privkey.secret_multiplier, d, what + ': secret'); T.eq(sk.privkey.order, cv.order); pub_same(T, cv, sk.get_verifying_key(), P, what)
def private(T, i, d):
    cv, R = toy.get(i); P = R.mul(d, R.G); sk = K.SigningKey.from_secret_exponent(d, cv); priv_same(T, cv, sk, d, P, 'made')
    s = sk.to_string(); T.eq(s, d.to_bytes(cv.baselen, 'big'), 'raw form'); priv_same(T, cv, K.SigningKey.from_string(s, cv), d, P, 'raw')
    if i < 0:
        priv_same(T, cv, K.SigningKey.from_der(sk.to_der()), d, P, 'DER'); p = sk.to_pem(); priv_same(T, cv, K.SigningKey.from_pem(p), d, P, 'PEM'); priv_same(T, cv, K.SigningKey.from_pem(p.decode()), d, P, 'PEM text')
    public(T, i, P)
def public(T, i, P):
    cv, R = toy.get(i); vk = K.VerifyingKey.from_public_point(E.Point(cv.curve, P[0], P[1], R.n), cv); s = vk.to_string(); T.eq(s, P[0].to_bytes(cv.baselen, 'big') + P[1].to_bytes(cv.baselen, 'big'), 'raw form')
    pub_same(T, cv, K.VerifyingKey.from_string(s, cv), P, 'raw')
    if i < 0: pub_same(T, cv, K.VerifyingKey.from_der(vk.to_der()), P, 'DER'); p = vk.to_pem(); pub_same(T, cv, K.VerifyingKey.from_pem(p), P, 'PEM'); pub_same(T, cv, K.VerifyingKey.from_pem(p.decode()), P, 'PEM text')
def readpub(T, i, s):
    cv, R = toy.get(i); L = cv.baselen; x, y = int.from_bytes(s[:L], 'big'), int.from_bytes(s[L:], 'big')
    if len(s) == 2 * L and x < R.p and y < R.p and R.on((x, y)): pub_same(T, cv, K.VerifyingKey.from_string(s, cv), (x, y), 'read')
    else: T.raises(Exception, K.VerifyingKey.from_string, s, cv)
def readpriv(T, i, s):
    cv, R = toy.get(i); d = int.from_bytes(s, 'big')
    if len(s) == cv.baselen and 0 < d < R.n: priv_same(T, cv, K.SigningKey.from_string(s, cv), d, R.mul(d, R.G), 'read')
    else: T.raises(Exception, K.SigningKey.from_string, s, cv)
def tl(tag, b):
    n = len(b); return bytes([tag]) + (bytes([n]) if n < 128 else (lambda k: bytes([128 + len(k)]) + k)(n.to_bytes((n.bit_length() + 7) // 8, 'big'))) + b
def derpriv(T, i, s, t):
    cv, R = toy.get(i); d = int.from_bytes(s, 'big'); w = tl(0x30, b'\2\1\1' + tl(4, s) + tl(0xa0, cv.encoded_oid) + t)
    if len(s) <= cv.baselen and 0 < d < R.n: priv_same(T, cv, K.SigningKey.from_der(w), d, R.mul(d, R.G), 'read')
    elif 0 < d < R.n:
        try: sk = K.SigningKey.from_der(w)
        except Exception: return
        priv_same(T, cv, sk, d, R.mul(d, R.G), 'read')
    else: T.raises(Exception, K.SigningKey.from_der, w)
def derpub(T, i, pre, s):
    cv, R = toy.get(i); L = cv.baselen; x, y = int.from_bytes(s[:L], 'big'), int.from_bytes(s[L:], 'big'); w = tl(0x30, tl(0x30, bytes.fromhex('06072a8648ce3d0201') + cv.encoded_oid) + tl(3, pre + s))
    if pre == b'\0\4' and len(s) == 2 * L and x < R.p and y < R.p and R.on((x, y)): pub_same(T, cv, K.VerifyingKey.from_der(w), (x, y), 'read')
    else: T.raises(Exception, K.VerifyingKey.from_der, w)
def outside(T, i, dx, dy):
    """the generator with multiples of p added to its coordinates: congruent, but no key unless in range"""
    cv, R = toy.get(i); P = E.Point(cv.curve, R.G[0] + dx * R.p, R.G[1] + dy * R.p)
    if dx or dy: T.raises(Exception, D.Public_key, cv.generator, P); T.raises(Exception, K.VerifyingKey.from_public_point, P, cv)
    else: T.ok(D.Public_key(cv.generator, P).point is P, 'another point')
def lift(R, x):
    if R.p % 4 == 3:
        y = R.lift(x)
        if y is not None: return x, y
def run(T):
    nc = len(C.curves)
    for i in range(-nc, 0):
        cv, R = toy.get(i); n, L, p = R.n, cv.baselen, R.p; b = lambda v, L=L: v.to_bytes(L, 'big')
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1): T.case(outside, i, dx, dy)
        for d in (1, 2, n - 1, 255, 256 ** (L - 2), n // 2): T.case(private, i, d)
        for d in (0, n, n + 1, 256 ** L - 1): 
            if d < 256 ** L: T.case(readpriv, i, b(d))
        for s in (b'', b(5)[1:], b(5) + b'\0', b'\0' + b(5)): T.case(readpriv, i, s)
        for s in (b'', b'\0', b'\5', bytes(L), b(n), b(n - 1), b'\0' + b(n - 1), b'\1' + b(5), b'\1' + bytes(L), b(5) + b'\0', bytes(200) + b'\7', b'\7' * 200, b(5)[1:]):
            for t in (b'', b'\0\0', bytes(150)): T.case(derpriv, i, s, t)
        g = b(R.G[0]) + b(R.G[1])
        for pre in (b'\0\4', b'\0\0', b'\4\0', b'\1\4', b'\0\6', b'\0\2'):
            for s in (g, b'', g[1:], g + b'\0', b'\0' + g, g[:L], g[L:] + g[:L], bytes(2 * L), b(R.G[0]) + b(R.p - R.G[1]), b(R.G[0]) + b(R.G[1] ^ 1)): T.case(derpub, i, pre, s)
        for s in (g, b'', g[1:], g[:-1], b'\4' + g, g + b'\0', g[:L], g[L:] + g[:L], bytes(2 * L), b'\xff' * (2 * L), b(R.G[0]) + b(R.p - R.G[1]), b(R.G[0]) + b(R.G[1] ^ 1)): T.case(readpub, i, s)
        k = 0
        for x in range(0, 30):
            P = lift(R, x)
            if P:
                T.case(readpub, i, b(P[0]) + b(P[1])); k += 1
                if k < 4: T.case(public, i, P)
                for u, v in ((P[0] + p, P[1]), (P[0], P[1] + p)):
                    if max(u, v) < 256 ** L: T.case(readpub, i, b(u) + b(v))
    for i in range(toy.NTOY()):
        cv, R = toy.get(i)
        for d in range(1, min(R.n, 40)): T.case(private, i, d)
        if R.p < 256:
            for d in range(256): T.case(readpriv, i, bytes([d]))
            if R.p < 30 and cv.baselen == 1:
                for x in range(R.p + 3):
                    for y in range(R.p + 3): T.case(readpub, i, bytes([x, y]))
    for h in T.hints:
        if isinstance(h.get('secret'), int):
            for i in range(-nc, 0): T.case(private, i, h['secret'] % (toy.get(i)[1].n - 1) + 1)
        if isinstance(h.get('key'), bytes) and len(h['key']) < 200:
            for i in range(-nc, 0): T.case(readpriv, i, h['key']); T.case(readpub, i, h['key']); T.case(derpriv, i, h['key'], h.get('rest') if isinstance(h.get('rest'), bytes) else b''); T.case(derpub, i, h['prefix'] if isinstance(h.get('prefix'), bytes) else b'\0\4', h['key'])
    while T.more():
        i = T.rng.randrange(-nc, 0); cv, R = toy.get(i); r = T.rng.random()
        if r < .5: T.case(private, i, 1 + T.below(R.n - 1))
        elif r < .6: T.case(readpriv, i, T.bytes(cv.baselen))
        elif r < .65: T.case(readpub, i, T.bytes(2 * cv.baselen))
        elif r < .7: T.case(derpriv, i, T.bytes(0, 2 * cv.baselen), T.bytes(0, 9))
        else:
            P = lift(R, T.below(R.p))
            if P: T.case(public, i, P)
