from nbc.util import key as K
from nbc.util.ecdsa import ecdsa as E
from testers import ref
P = ref.P256k1; R = ref.K1
def point(T, k):
    x, y = R.mul(k, R.G); u = b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'); z = bytes([2 + (y & 1)]) + u[1:33]
    T.eq(K.compress_public_key(u), z, 'compressed'); T.eq(K.decompress_public_key(z), u, 'decompressed'); T.eq(K.decompress_public_key(u), u, 'kept')
    T.eq(K.decompress_public_key(bytes([5 - z[0]]) + z[1:]), b'\x04' + u[1:33] + (P - y).to_bytes(32, 'big'), 'the opposite point')
def small(T, z):
    x = int.from_bytes(z[1:], 'big'); y = R.lift(x) if x < P else None
    if z[0] not in (2, 3) or len(z) != 33 or y is None: return T.raises(ValueError, K.decompress_public_key, z)
    if (y ^ z[0]) & 1: y = P - y
    u = b'\x04' + z[1:] + y.to_bytes(32, 'big'); T.eq(K.decompress_public_key(z), u, 'decompressed'); T.eq(K.compress_public_key(u), z, 'compressed again')
def big(T, u):
    x, y = int.from_bytes(u[1:33], 'big'), int.from_bytes(u[33:], 'big')
    if len(u) == 65 and u[0] == 4 and x < P and y < P and R.on((x, y)): T.eq(K.decompress_public_key(u), u, 'kept')
    elif len(u) == 33: small(T, u)
    else: T.raises(ValueError, K.decompress_public_key, u)
def compress(T, u):
    if len(u) == 65 and u[0] == 4: T.eq(K.compress_public_key(u), bytes([2 + (u[64] & 1)]) + u[1:33], 'compressed')
    else: T.raises(ValueError, K.compress_public_key, u)
def valid(T, x, y): T.eq(bool(E.point_is_valid(E.generator_secp256k1, x, y)), 0 <= x < P and 0 <= y < P and R.on((x, y)), 'validity')
def b(v): return v.to_bytes(32, 'big')
def run(T):
    for k in (1, 2, 3, ref.N256k1 - 1, ref.N256k1 // 2): T.case(point, k)
    for h in T.hints:
        if isinstance(h.get('key'), bytes) and len(h['key']) < 200: T.case(big, h['key']); T.case(compress, h['key']); T.case(big, (h['key'] + bytes(65))[:65])
    for x in list(range(40)) + [P - i for i in range(1, 40)] + [P + i for i in range(0, 40)] + [(1 << 256) - 1, (1 << 255)]:
        for pre in (2, 3): T.case(small, bytes([pre]) + b(x))
    x, y = R.G; g = b(x) + b(y)
    for pre in range(256): T.case(small, bytes([pre]) + b(x)); T.case(big, bytes([pre]) + g); T.case(compress, bytes([pre]) + g)
    for n in list(range(0, 140)):
        for pre in (2, 3, 4): T.case(big, (bytes([pre]) + g + g)[:n]); T.case(compress, (bytes([pre]) + g + g)[:n])
    # points with small coordinates, written with p added
    xs = []
    for x in range(0, 60):
        y = R.lift(x)
        if y is not None:
            for yy in (y, P - y):
                T.case(valid, x, yy); T.case(valid, x + P, yy); T.case(valid, x, yy + P); T.case(valid, x, -yy); T.case(valid, x - P, yy); T.case(valid, -x, yy)
                if x + P < 1 << 256: T.case(big, b'\x04' + b(x + P) + b(yy)); T.case(big, b'\x04' + b(x) + b(yy))
    # small y: x is a cube root
    e = (P + 2) // 9
    for y in range(1, 60):
        c = (y * y - 7) % P; r = pow(c, e, P)
        if pow(r, 3, P) == c:
            for w in (y, y + P, P - y): T.case(big, b'\x04' + b(r) + b(w)); T.case(valid, r, w)
            for pre in (2, 3): T.case(small, bytes([pre]) + b(r))
    while T.more():
        r = T.rng.random()
        if r < .3: T.case(point, 1 + T.below(ref.N256k1 - 1))
        elif r < .6: T.case(small, bytes([T.rng.choice((2, 3))]) + b(T.below(1 << 256)))
        elif r < .7: T.case(big, bytes([T.rng.choice((2, 3, 4, 6, 7, 0))]) + T.bytes(0, 70))
        elif r < .8: T.case(compress, bytes([T.rng.choice((2, 3, 4, 6, 7, 0))]) + T.bytes(60, 70))
        else:
            x = T.below(P); y = R.lift(x)
            if y is None: continue
            if T.rng.random() < .3: y = (y + T.rng.choice((1, -1, 2))) % P
            T.case(big, b'\x04' + b(x) + b(y)); T.case(valid, x, y)
