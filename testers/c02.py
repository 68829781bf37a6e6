from nbc.util import base58
from .ref import *
def payload(T, v):
    t = base58.encode_check(v)
    T.eq(t, check58(v), 'encode_check'); T.eq(base58.decode_check(t), v, 'decode_check(encode_check(v))')
    T.eq(base58.decode_check(t.decode()), v, 'decode_check of str')
def raw(T, d):
    """any decoded bytes d"""
    want = d[:-4] if len(d) >= 4 and sha256d(d[:-4])[:4] == d[-4:] else None
    T.eq(base58.decode_check(enc58(d)), want, 'decode_check')
def run(T):
    for h in T.hints:
        for k in ('v', 'D'):
            if isinstance(h.get(k), bytes): T.case(payload, h[k]); T.case(raw, h[k]); T.case(raw, h[k] + sha256d(h[k])[:4])
    # short texts whose bytes are a prefix or suffix of the checksum of the empty string
    e = sha256d(b'')
    for i in range(5):
        for j in range(i, 6): T.case(raw, e[i:j]); T.case(raw, bytes(j))
    for n in range(0, 80): T.case(payload, bytes(n)); T.case(payload, b'\xff' * n); T.case(payload, bytes(range(n)))
    for n in (300, 1000): T.case(payload, b'\x80' * n)
    # one-step hash, swapped digest parts, checksum bit flips
    while T.more():
        v = T.bytes(0, T.rng.choice((4, 40, 100))); c = sha256d(v)[:4]
        T.case(payload, v)
        for bad in (v + sha256(v)[:4], v + sha256d(v)[-4:], v + sha256d(v)[1:5], v + c[::-1], c + v, v + c[:3], v + c + b'\0', v + c[:3] + bytes([c[3] ^ 1])): T.case(raw, bad)
        d = bytearray(v + c); k = T.rng.randrange(len(d)); d[k] ^= 1 << T.rng.randrange(8); T.case(raw, bytes(d))
        d = bytearray(v + c); k = len(v) + T.rng.randrange(4); d[k] ^= 1 << T.rng.randrange(8); T.case(raw, bytes(d))
        T.case(raw, T.bytes(0, 12))
