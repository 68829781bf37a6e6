from nbc.wallet import HDWallet, Address
from nbc.util import ecc
from testers.wallets import *
def valid(P, data, r, s):
    if not (0 < r < N and 0 < s < N): return False
    w = pow(s, N - 2, N); X = K1.add(K1.mul(int.from_bytes(ref.sha256d(data), 'big') * w % N, K1.G), K1.mul(r * w % N, P))
    return X is not None and X[0] % N == r
def ints(sig):
    """the two numbers of a DER signature"""
    assert sig[0] == 0x30 and sig[1] == len(sig) - 2 and sig[2] == 2
    n = sig[3]; r = sig[4:4 + n]; t = sig[4 + n:]; assert t[0] == 2 and t[1] == len(t) - 2
    return int.from_bytes(r, 'big'), int.from_bytes(t[2:], 'big')
def signs(T, d, chain, depth, pfp, num, testnet, data, path):
    if not depth: num = 0
    n = Node(d, None, chain, depth, pfp, num); w = make(n, 7, testnet)
    for i in path:
        if n.child(i): n = n.child(i); w = w.child(i)
    sig = w.sign(data); r, s = ints(sig); T.ok(valid(n.P, data, r, s), 'the signature is one of the double SHA-256 of the data', sig)
    ws = [w, make(n.neuter(), 3, testnet), HDWallet.from_extended_key(w.to_extended_key()), HDWallet.from_extended_key(w.to_extended_key(True)), Address(pubKey=ser(n.P), vcn=0), Address(privKey=ref.wif(b32(n.d), False), vcn=9)]
    for k, v in enumerate(ws): T.ok(v.verify(data, sig) is True, 'verifies', k)
    v = ws[1]; T.ok(not v.verify(data + b'\0', sig), 'other data'); T.raises(ValueError, v.sign, data); T.raises(ValueError, ws[2].sign, data)
    T.ok(not make(Node(n.d % (N - 1) + 1, None, chain), 1, testnet).verify(data, sig), 'another wallet')
    t = ref.dersig(r, N - s); T.ok(v.verify(data, t) is True, 'the other signature with this r'); t = ref.dersig(r, s % (N - 1) + 1); T.ok(not v.verify(data, t), 'another s')
def judges(T, d, pub, data, r, s):
    n = Node(d, None, bytes(32)); w = make(n.neuter() if pub else n, 7, False); T.eq(bool(w.verify(data, ref.dersig(r, s))), valid(n.P, data, r, s), 'verdict')
def run(T):
    H = 1 << 31
    for h in T.hints:
        d = h['secret'] % (N - 1) + 1 if isinstance(h.get('secret'), int) else 7
        T.case(signs, d, bytes(32), 0, b'abcd', 1, False, h['data'] if isinstance(h.get('data'), bytes) else b'', [])
    for k, d in enumerate(EDGE + small()[:6]):
        if T.more(.5): T.case(signs, d, bytes(range(32)), k % 3, b'\0\1\2\3', k, k % 2 == 0, bytes(range(k)), [[], [1], [H, 2]][k % 3])
    for r, s in ((0, 1), (1, 0), (N, 1), (1, N), (1, 1), (N - 1, N - 1)):
        for pub in (False, True): T.case(judges, 5, pub, b'data', r, s)
    while T.more():
        T.case(signs, 1 + T.below(N - 1), T.bytes(32, 32), T.rng.choice([0, 1, 200, 254]), T.bytes(4, 4), T.below(1 << 32), T.rng.random() < .5, T.bytes(0, 100), [T.below(1 << 32) for _ in range(T.rng.choice([0, 0, 1, 2]))])
        if T.rng.random() < .3: T.case(judges, 1 + T.below(N - 1), T.rng.random() < .5, T.bytes(0, 30), T.below(N), T.below(N))
