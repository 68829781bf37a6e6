from nbc.wallet import HDWallet
from testers.wallets import *
import hmac as HM
def spec(d, P, chain, depth, pfp, num): return Node(d, P, chain, depth, pfp, num)
def derive(T, w, n, i, vcn, testnet):
    c = n.child(i)
    if c is None: T.raises(Exception, w.child, i); return None, None
    r = w.child(i); same(T, r, c, vcn, testnet); return r, c
def child(T, d, pub, chain, depth, pfp, num, vcn, testnet, path):
    if not depth: num = 0
    n = Node(None, G(d), chain, depth, pfp, num) if pub else Node(d, None, chain, depth, pfp, num); w = make(n, vcn, testnet); before = dict(w.__dict__)
    a, b, v, m = w, n, make(n.neuter(), vcn, testnet), n.neuter()
    for i in path:
        r, c = derive(T, a, b, i, vcn, testnet)
        if v is not None:
            v, m = derive(T, v, m, i, vcn, testnet)
            if v is not None and r is not None: T.eq(v.to_extended_key(), r.to_extended_key(), 'public and private derivation agree'); T.eq(v.address(), r.address(), 'addresses agree'); T.eq(v.point(), r.point(), 'points agree')
        same(T, a, b, vcn, testnet)          # the parent is kept
        if r is None: break
        a, b = r, c
def seed(T, s, vcn, testnet):
    I = hmac.new(b'Bitcoin seed', s if isinstance(s, bytes) else s.encode('latin-1'), 'sha512').digest(); k = int.from_bytes(I[:32], 'big') % N
    same(T, HDWallet.from_master_seed(s, vcn=vcn, testnet=testnet), Node(k, None, I[32:]), vcn, testnet)
def bad(T, d, i): T.raises(Exception, make(Node(d, None, bytes(32)), 0, False).child, i)
class Fake(object):
    def __init__(s, v): s.v = v
    def digest(s): return s.v
def forced(T, d, il, pub):
    """an HMAC chosen by the adversary: what BIP-32 says about IL >= n and a zero key"""
    import nbc.wallet.hdwallet as H
    class M(object):
        @staticmethod
        def new(*a, **k): return Fake(b32(il) + bytes(range(32)))
    n = Node(d, None, bytes(32)); w = make(n.neuter() if pub else n, 5, False); old = H.hmac; H.hmac = M
    try:
        if il >= N or (d + il) % N == 0: T.raises(Exception, w.child, 3)
        else: same(T, w.child(3), Node(None, G((d + il) % N), bytes(range(32)), 1, fp(n.P), 3) if pub else Node((d + il) % N, None, bytes(range(32)), 1, fp(n.P), 3), 5, False)
    finally: H.hmac = old
def run(T):
    H = 1 << 31; I = [0, 1, 255, 256, H - 1, H, H + 1, 2 ** 32 - 1, 2 ** 32 - 2, 0x00ffffff]
    # BIP-32 test vector 1
    T.case(seed, bytes(range(16)), 0, False); T.case(child, int.from_bytes(hmac.new(b'Bitcoin seed', bytes(range(16)), 'sha512').digest()[:32], 'big'), False, hmac.new(b'Bitcoin seed', bytes(range(16)), 'sha512').digest()[32:], 0, bytes(4), 0, 1, False, [H, 1, H + 2, 2, 1000000000])
    for h in T.hints:
        f = lambda k, m: h[k] % m if isinstance(h.get(k), int) else 3
        c = h.get('chain') if isinstance(h.get('chain'), bytes) and len(h['chain']) == 32 else bytes(32)
        if isinstance(h.get('index'), int):
            if 0 <= h['index'] < 1 << 32:
                for pub in (False, True): T.case(child, f('secret', N - 1) + 1, pub, c, f('depth', 256), b'abcd', 7, f('vcn', 1 << 20), False, [h['index']])
            else: T.case(bad, 5, h['index'])
        if isinstance(h.get('seed'), bytes): T.case(seed, h['seed'], 9, True)
    for k, d in enumerate(EDGE[:6] + small()[:4]):
        for i in I:
            if T.more(.4): T.case(child, d, (k + i) % 3 == 0, bytes(range(32)) if k % 2 else b'\xff' * 32, (0, 1, 254, 255)[k % 4], b'\0\1\2\3', 9, 70000, k % 2 == 1, [i])
    for i in (-1, 1 << 32, -(1 << 31), 1 << 40): T.case(bad, 7, i)
    for d in (1, 5, N - 1):
        for il in (0, 1, N - d, N - 1, N, N + 1, 2 ** 256 - 1, N - d - 1):
            for pub in (False, True): T.case(forced, d, il, pub)
    for s in (b'', 'seed', b'\xff' * 64, 'HDWallet seed', b'x' * 200): T.case(seed, s, None, True); T.case(seed, s, 65536 + 3, False)
    while T.more():
        r = T.rng.random()
        if r < .15: T.case(seed, T.bytes(0, 70), T.below(1 << 18), T.rng.random() < .5)
        else:
            n = node(T); T.case(child, n.d, T.rng.random() < .3, n.chain, n.depth, n.pfp, n.num, T.below(1 << 17), T.rng.random() < .5, [T.rng.choice((T.below(H), T.below(H), T.rng.choice(I), T.below(1 << 32))) for _ in range(T.rng.randint(1, 3))])
