from nbc.util import base58
from .ref import A58 as A, enc58 as enc, dec58 as dec
def payload(T, v):
    t = base58.b58encode(v)
    T.eq(t, enc(v), 'b58encode')
    T.eq(base58.b58decode(t), v, 'b58decode(b58encode(v))')
def text(T, t):
    v = base58.b58decode(t)
    T.eq(v, dec(t), 'b58decode')
    T.eq(base58.b58encode(v), t, 'b58encode(b58decode(t))')
    T.eq(base58.b58decode(t.decode()), v, 'b58decode of str')
def bad(T, t): T.raises(ValueError, base58.b58decode, t)
def run(T):
    for n in (0, 1, 2, 20, 33, 37, 300, 1500, 4096): T.case(payload, bytes(n)); T.case(payload, b'\xff' * n); T.case(text, b'1' * n); T.case(text, b'z' * n)
    for h in T.hints:
        if isinstance(h.get('v'), bytes): T.case(payload, h['v'])
        if isinstance(h.get('text'), bytes) and all(c in A for c in h['text']): T.case(text, h['text'])
    for i in range(256):
        T.case(payload, bytes([i])); T.case(payload, bytes([0, i])); T.case(payload, bytes([i, 0]))
        if i in A: T.case(text, bytes([i])); T.case(text, bytes([49, i])); T.case(text, bytes([i, 49]))
        else: T.case(bad, bytes([i])); T.case(bad, b'2' + bytes([i])); T.case(bad, b'11' + bytes([i]) + b'z')
    for i in range(65536):
        if not T.more(0.4): break
        T.case(payload, i.to_bytes(2, 'big'))
    while T.more():
        T.case(payload, T.bytes(0, T.rng.choice((8, 40, 200))))
        t = bytes(T.rng.choice(A) if T.rng.random() < .9 else 49 for _ in range(T.rng.randint(0, T.rng.choice((6, 60)))))
        T.case(text, t)
        if T.rng.random() < .3 and t:
            k = T.rng.randrange(len(t)); b = T.rng.choice([x for x in range(256) if x not in A])
            T.case(bad, t[:k] + bytes([b]) + t[k+1:])
