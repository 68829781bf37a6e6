from nbc.util import base58, key as K
from .ref import *
def good(T, key, comp):
    t = K.privkey_to_wif(key + b'\x01' if comp else key)
    T.eq(t, wif(key, comp), 'WIF text'); T.eq(K.privkey_from_wif(t), key, 'privkey_from_wif'); T.eq(K.privkey_from_wif(t.decode()), key, 'privkey_from_wif of str')
def form(t, d, pre=0x80):
    """the key of a text with decoded payload d, or None"""
    if d is None: return None
    if len(d) == 33 and d[0] == pre and t[:1] == b'5': return d[1:]
    if len(d) == 34 and d[0] == pre and d[33] == 1 and t[:1] in (b'K', b'L'): return d[1:33]
def text(T, t, pre=0x80):
    try: d = dec58(t)
    except ValueError: d = b''
    d = d[:-4] if len(d) >= 4 and sha256d(d[:-4])[:4] == d[-4:] else None
    k = form(t, d, pre)
    if k is None: T.raises(ValueError, K.privkey_from_wif, t, bytes([pre]))
    else: T.eq(K.privkey_from_wif(t, bytes([pre])), k, 'privkey_from_wif')
def run(T):
    for h in T.hints:
        if isinstance(h.get('D'), bytes): T.case(text, check58(h['D']))
        if isinstance(h.get('key'), bytes) and len(h['key']) == 32: T.case(good, h['key'], True); T.case(good, h['key'], False)
    for k in (bytes(32), bytes(31) + b'\1', b'\xff' * 32, N256k1.to_bytes(32, 'big'), b'\1' * 32, b'\x80' * 32):
        T.case(good, k, True); T.case(good, k, False)
    T.case(text, check58(b'')); T.case(text, b''); T.case(text, b'5'); T.case(text, b'KL'); T.case(text, b'0OIl')
    for p in range(256):
        T.case(text, check58(bytes([p]) + b'\x11' * 32)); T.case(text, check58(bytes([p]) + b'\xee' * 32 + b'\1')); T.case(text, check58(b'\x80' + b'\x22' * 32 + bytes([p])))
    for p in range(256):
        for b in (0, 0x55, 0xaa, 255): T.case(text, check58(bytes([p]) + bytes([b]) * 32), p); T.case(text, check58(bytes([p]) + bytes([b]) * 32 + b'\1'), p); T.case(text, check58(bytes([p]) + bytes([b]) * 32 + b'\1'), p ^ 1)
    for n in range(0, 72): T.case(text, check58(b'\x80' + b'\1' * n)); T.case(text, check58(b'\x80' + b'\1' * n + b'\1'))
    while T.more():
        k = T.bytes(32); T.case(good, k, T.rng.random() < .5)
        p = T.rng.choice((0x80, 0x80, 0x80, 0, 0x7f, 0x81, 0xef, T.rng.randrange(256)))
        d = bytes([p]) + T.bytes(T.rng.choice((0, 1, 31, 32, 33, 34, 65))) + T.rng.choice((b'', b'\1', b'\0', b'\2'))
        T.case(text, check58(d)); T.case(text, check58(d), p)
        t = bytearray(check58(d)); i = T.rng.randrange(len(t)); t[i] = T.rng.choice(A58); T.case(text, bytes(t))
        T.case(text, b'1' + check58(d)); T.case(text, enc58(d + sha256(d)[:4])); T.case(text, bytes(t)[1:])
