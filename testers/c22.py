from nbc.wallet import Address
from testers.wallets import *
def view(T, A, d, comp, vcn, testnet, priv):
    P = G(d); T.eq(A.pubKey, un(P), 'public key'); T.eq(A.publicKey(), ser(P) if comp else un(P), 'public key in the form of the address'); T.eq(bool(A.compressed), comp, 'compressed'); T.eq(bool(A.testnet), testnet, 'network')
    if vcn is None: T.ok(0 <= A.vcn < 65536, 'vcn', A.vcn)
    else: T.eq(A.vcn, vcn & 0xffff, 'vcn')
    T.eq(A.address, ref.address(ser(P) if comp else un(P), A.vcn, b'\x6f' if testnet else b'\0'), 'address'); T.eq(A.privKey, ref.wif(b32(d), comp) if priv else None, 'private key')
def make(d, comp, vcn, testnet, priv):
    P = G(d); return Address(vcn=vcn, testnet=testnet, **(dict(privKey=ref.wif(b32(d), comp)) if priv else dict(pubKey=ser(P) if comp else un(P))))
def one(T, d, comp, vcn, testnet, priv):
    A = make(d, comp, vcn, testnet, priv); view(T, A, d, comp, vcn, testnet, priv); n = A.vcn
    B, C = A.compress(), A.decompress(); view(T, B, d, True, n, testnet, priv); view(T, C, d, False, n, testnet, priv)
    view(T, B.decompress(), d, False, n, testnet, priv); view(T, C.compress(), d, True, n, testnet, priv); view(T, A, d, comp, n, testnet, priv)
def signs(T, d, comp, data):
    A = make(d, comp, 3, False, True); s = A.sign(data); T.ok(A.verify(data, s) is True, 'what it signs it verifies'); T.ok(make(d, not comp, 0, True, False).verify(data, s) is True, 'the public key alone verifies it')
    T.ok(not A.verify(data + b'x', s), 'other data'); T.ok(not make(d % (N - 1) + 1, comp, 0, False, False).verify(data, s), 'another key')
    T.raises(ValueError, make(d, comp, 0, False, False).sign, data)
def generated(T, kw):
    A = Address.generate(**kw); d = int.from_bytes(ref.dec58(A.privKey)[1:33], 'big'); T.ok(0 < d < N, 'secret'); view(T, A, d, kw.get('compressed', True), kw.get('vcn'), kw.get('testnet', False), True)
def refused(T, kw): T.raises(Exception, Address, **kw)
def run(T):
    for d in EDGE + small()[:5]:
        for comp in (False, True):
            for priv in (False, True):
                if T.more(.4): T.case(one, d, comp, (0, 1, 65535, 65536, 70001, None)[d % 6], d % 2 == 0, priv)
    for h in T.hints:
        d = h['secret'] % (N - 1) + 1 if isinstance(h.get('secret'), int) else 7; v = h.get('vcn', 5)
        for comp in (False, True):
            for priv in (False, True):
                for t in (False, True): T.case(one, d, comp, v if isinstance(v, int) else 5, t, priv)
            T.case(signs, d, comp, h['data'] if isinstance(h.get('data'), bytes) else b'')
        if isinstance(h.get('key'), bytes):
            k = h['key']; T.case(refused, dict(privKey=k, vcn=1))
            if not (len(k) == 33 and k[0] in (2, 3) and int.from_bytes(k[1:], 'big') < ref.P256k1 and K1.lift(int.from_bytes(k[1:], 'big')) is not None): T.case(refused, dict(pubKey=k, vcn=1))
    P = G(99); u, s, w, wc = un(P), ser(P), ref.wif(b32(99), False), ref.wif(b32(99), True)
    for a in (u, s):
        for b in (w, wc): T.case(refused, dict(pubKey=a, privKey=b, vcn=0))
    for kw in ({}, dict(pubKey=b''), dict(privKey=b''), dict(pubKey=b'', privKey=b''), dict(pubKey=None, privKey=None, vcn=3)): T.case(refused, kw)
    bad = [u[:64], u + b'\0', b'\4', u[1:], b'\4' + u[1:33] + b32(P[1] ^ 1), b'\4' + bytes(64), b'\6' + u[1:], b'\5' + u[1:33], s[:32], s + b'\0', b'\2' + b32(ref.P256k1 + 1), b'\2' + b32(5), b'\0' + s[1:], b'\4' + s[1:], b'\2' + u[1:], b'\4' + b32(P[0] + 1) + u[33:], u.decode('latin-1'), 5]
    for k in bad: T.case(refused, dict(pubKey=k, vcn=0))
    for v in (0, N, N + 1, N + 99, 2 ** 256 - 1):
        for c in (False, True): T.case(refused, dict(privKey=ref.wif(b32(v), c), vcn=0))
    for k in [w[:-1], w + b'1', w[:-1] + (b'2' if w[-1:] != b'2' else b'3'), b'L', b'K', b'5', w.decode(), ref.check58(b'\x80' + b32(9) + b'\2'), ref.check58(b'\x81' + b32(9)), ref.check58(b'\x80' + b32(9)[1:]), b'x' * 51, b'5' * 51, b'0', 'K' + wc.decode()[1:]]: T.case(refused, dict(privKey=k, vcn=0))
    for d in EDGE[:4]:
        for m in (b'', b'abc', bytes(100)):
            if T.more(.7): T.case(signs, d, d % 2 == 0, m)
    for kw in ({}, dict(vcn=0), dict(vcn=70000, testnet=True), dict(compressed=False), dict(compressed=False, testnet=True, vcn=5)): T.case(generated, kw)
    while T.more():
        r = T.rng.random(); d = 1 + T.below(N - 1)
        if r < .6: T.case(one, d, T.rng.random() < .5, T.below(1 << 17), T.rng.random() < .5, T.rng.random() < .6)
        elif r < .7: T.case(signs, d, T.rng.random() < .5, T.bytes(0, 80))
        elif r < .85:
            x = T.bytes(32)
            if int.from_bytes(x, 'big') >= ref.P256k1 or K1.lift(int.from_bytes(x, 'big')) is None: T.case(refused, dict(pubKey=bytes([2 + T.rng.randrange(2)]) + x, vcn=0))
        else: b = bytearray(u); b[T.rng.randrange(65)] ^= 1 << T.rng.randrange(8); T.case(refused, dict(pubKey=bytes(b), vcn=0))
