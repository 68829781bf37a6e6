from nbc.util import ecc
from testers import ref
N = ref.N256k1
def agree(T, a, b):
    x = ref.K1.mul(a * b % N, ref.K1.G)[0].to_bytes(32, 'big')
    for me, other in ((a, b), (b, a)):
        for c in (False, True):
            for d in (False, True): T.eq(ecc.shared_secret(ref.pub(other, c), ref.wif(me.to_bytes(32, 'big'), d)), x, 'shared secret')
def leading(k):
    """private keys whose agreement has an x coordinate with leading zero bytes, or with odd and even y"""
    P, out = ref.K1.G, []
    for i in range(1, 6000):
        if P[0] >> 248 == 0 or P[1] >> 248 == 0: out.append(i)
        P = ref.K1.add(P, ref.K1.G)
        if len(out) >= k: break
    return out
def run(T):
    E = [1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, 1 << 255, (1 << 128) - 1]
    for a in E:
        for b in E:
            if T.more(.4): T.case(agree, a, b)
    for h in T.hints:
        if isinstance(h.get('a'), int) and isinstance(h.get('b'), int): T.case(agree, h['a'] % (N - 1) + 1, h['b'] % (N - 1) + 1)
    for k in leading(8):
        if T.more(.7): T.case(agree, k, 1); b = 1 + T.below(N - 1); T.case(agree, k * pow(b, -1, N) % N, b)
    while T.more(): T.case(agree, 1 + T.below(N - 1), 1 + T.below(N - 1))
