"""Reference for the wallets: BIP-32, extended keys, addresses."""
import hmac, hashlib, struct
from testers import ref
N, K1 = ref.N256k1, ref.K1
VER = {(False, False): 0x0488B21E, (False, True): 0x0488ADE4, (True, False): 0x043587CF, (True, True): 0x04358394}
def b32(v): return v.to_bytes(32, 'big')
def ser(P): return bytes([2 + (P[1] & 1)]) + b32(P[0])
def un(P): return b'\4' + b32(P[0]) + b32(P[1])
def G(d): return K1.mul(d, K1.G)
def fp(P): return ref.ripemd160(ref.sha256(ser(P)))[:4]
class Node(object):
    def __init__(s, d, P, chain, depth=0, pfp=bytes(4), num=0): s.d, s.P, s.chain, s.depth, s.pfp, s.num = d, P if d is None else G(d), chain, depth, pfp, num
    def child(s, i):
        """the child, or None when there is none"""
        if s.depth >= 255 or (i >> 31 and s.d is None): return None
        I = hmac.new(s.chain, (b'\0' + b32(s.d) if i >> 31 else ser(s.P)) + struct.pack('>I', i), 'sha512').digest(); IL = int.from_bytes(I[:32], 'big')
        if IL >= N: return None
        if s.d is not None:
            k = (s.d + IL) % N
            if k == 0: return None
            return Node(k, None, I[32:], s.depth + 1, fp(s.P), i)
        Q = K1.add(s.P, G(IL))
        if Q is None: return None
        return Node(None, Q, I[32:], s.depth + 1, fp(s.P), i)
    def raw(s, testnet, priv): return struct.pack('>IB', VER[testnet, priv], s.depth) + (s.pfp if s.depth else bytes(4)) + struct.pack('>I', s.num) + s.chain + (b'\0' + b32(s.d) if priv else ser(s.P))
    def xkey(s, testnet, priv): return ref.check58(s.raw(testnet, priv))
    def neuter(s): return Node(None, s.P, s.chain, s.depth, s.pfp, s.num)
def same(T, w, n, vcn, testnet):
    """the wallet w is the node n"""
    from nbc.util.ecdsa import ellipticcurve as EC
    T.eq(w.prvkey(), None if n.d is None else b32(n.d), 'private key'); T.eq(w.pubkey(), un(n.P)[1:], 'public key'); T.eq(w.chain(), n.chain, 'chain code'); T.eq(w.depth(), n.depth, 'depth')
    T.eq(w.parentfp(), n.pfp if n.depth else bytes(4), 'parent fingerprint'); T.eq(w.childnum(), n.num, 'child number'); T.eq(w.fingerprint(), fp(n.P), 'fingerprint')
    if vcn is not None: T.eq(w.vcn, vcn & 0xffff, 'vcn')
    T.eq(w.address(), ref.address(ser(n.P), w.vcn, b'\x6f' if testnet else b'\0'), 'address'); T.eq(bool(w._testnet), testnet, 'network')
    T.ok(w._pubkey is None or isinstance(w._pubkey, EC.Point), 'public point')
def make(n, vcn, testnet):
    from nbc.wallet import HDWallet
    from nbc.util.ecdsa import ellipticcurve as EC, SECP256k1 as cv
    kw = dict(vcn=vcn, testnet=testnet)
    if n.depth: kw.update(depth=n.depth, parentfp=n.pfp, childnum=n.num)
    return HDWallet(n.d if n.d is not None else EC.Point(cv.curve, *n.P), n.chain, **kw)
ODD = [d for d in range(1, 60) if G(d)[1] & 1][:3]; EVEN = [d for d in range(1, 60) if not G(d)[1] & 1][:3]
EDGE = [1, 2, N - 1, N - 2, 1 << 255, 255, (1 << 128) - 1, N // 2] + ODD + EVEN
def small():
    """secrets whose public key has leading zero bytes"""
    P, out = K1.G, []
    for i in range(1, 4000):
        if P[0] >> 248 == 0 or P[1] >> 248 == 0: out.append(i)
        P = K1.add(P, K1.G)
    return out[:12]
def node(T, priv=True):
    d = T.rng.choice(EDGE) if T.rng.random() < .2 else 1 + T.below(N - 1); chain = T.bytes(32)
    a = (d, None) if priv else (None, G(d))
    if T.rng.random() < .4: return Node(*a, chain)
    return Node(*a, chain, T.rng.choice((1, 2, 3, 127, 128, 253, 254, 255)), T.bytes(4), T.below(1 << 32))
