from nbc.wallet import HDWallet
from testers.wallets import *
def parse(raw):
    """what an 82-byte payload means: (node, testnet) or None"""
    if len(raw) != 82 or ref.sha256d(raw[:78])[:4] != raw[78:]: return None
    v, depth = struct.unpack('>IB', raw[:5]); m = [k for k in VER if VER[k] == v]
    if not m: return None
    t, priv = m[0]; a = (raw[13:45], depth, raw[5:9] if depth else bytes(4), struct.unpack('>I', raw[9:13])[0]); x = int.from_bytes(raw[46:78], 'big')
    if priv: return (Node(x, None, *a), t, True) if raw[45] == 0 and 0 < x < N else None
    if raw[45] not in (2, 3) or x >= ref.P256k1: return None
    y = K1.lift(x)
    if y is None: return None
    return Node(None, (x, y if y & 1 == raw[45] & 1 else ref.P256k1 - y), *a), t, False
def read(T, text, vcn):
    """any text"""
    try: raw = ref.dec58(text if isinstance(text, bytes) else text.encode()) if len(text) else b''
    except ValueError: raw = b''
    p = parse(raw)
    if p is None: T.raises(Exception, HDWallet.from_extended_key, text, vcn); return
    n, t, priv = p; w = HDWallet.from_extended_key(text, vcn=vcn); same(T, w, n, vcn, t); T.eq(w.to_extended_key(include_prv=priv), n.xkey(t, priv), 'written again')
    if not priv: T.raises(Exception, w.to_extended_key, True)
def payload(T, raw, vcn): read(T, ref.enc58(raw), vcn)
def fixed(T, body, vcn): payload(T, body + ref.sha256d(body)[:4], vcn)
def write(T, d, pub, chain, depth, pfp, num, vcn, testnet):
    n = Node(d, None, chain, depth, pfp, num); w = make(n.neuter() if pub else n, vcn, testnet)
    for priv in (False, True):
        if priv and pub: T.raises(Exception, w.to_extended_key, include_prv=True); continue
        t = w.to_extended_key(include_prv=priv); T.eq(t, n.xkey(testnet, priv), 'extended key'); same(T, HDWallet.from_extended_key(t, vcn=vcn), n if priv else n.neuter(), vcn, testnet)
    T.eq(w.to_extended_key(), n.xkey(testnet, False), 'public by default')
def run(T):
    base = Node(12345, None, bytes(range(32)), 3, b'\1\2\3\4', 0x80000001)
    for k, d in enumerate(EDGE + small()):
        if T.more(.3): T.case(write, d, k % 3 == 0, bytes(range(32)) if k % 2 else bytes(32), (0, 1, 127, 255)[k % 4], b'\0\1\2\3', (0, 1, 1 << 31, 2 ** 32 - 1)[k % 4], k, k % 2 == 0)
    for h in T.hints:
        p = h.get('payload'); f = lambda k, m: h[k] % m if isinstance(h.get(k), int) else 3
        if isinstance(p, bytes):
            T.case(payload, p, 1)
            if len(p) >= 78: T.case(fixed, p[:78], 1)
        if 'secret' in h: T.case(write, f('secret', N - 1) + 1, False, bytes(32), f('depth', 256), b'abcd', f('childnum', 1 << 32), f('vcn', 1 << 20), False); T.case(write, f('secret', N - 1) + 1, True, bytes(32), f('depth', 256), b'abcd', f('childnum', 1 << 32), f('vcn', 1 << 20), True)
    for t in (False, True):
        for priv in (False, True):
            r = base.raw(t, priv); full = r + ref.sha256d(r)[:4]; T.case(payload, full, 3)
            for i in range(82):
                if T.more(.45) or i % 9 == 0 or i > 76: T.case(payload, full[:i] + bytes([full[i] ^ (1 << i % 8)]) + full[i + 1:], 3)
            for i in list(range(0, 6)) + [44, 45, 46, 77]:
                for v in (0, 1, 2, 3, 4, 0x80, 0xff):
                    if T.more(.6): T.case(fixed, r[:i] + bytes([v]) + r[i + 1:], 3)
            for b in (r[:-1], r + b'\0', r + b'\1', b'', r[:45], b'\0' + r): T.case(fixed, b, 3)
            for x in (0, 1, 5, N - 1, N, N + 1, ref.P256k1 - 1, ref.P256k1, ref.P256k1 + 1, ref.P256k1 + 2, ref.P256k1 + 3, ref.P256k1 + 4, 2 ** 256 - 1):
                for pre in (0, 1, 2, 3, 4, 0x82): T.case(fixed, r[:45] + bytes([pre]) + b32(x), 3)
    for s in ('', 'xpub', '0', b'0OIl', 'x' * 111): T.case(read, s, 0)
    while T.more():
        n = node(T); t = T.rng.random() < .5; r = T.rng.random()
        if r < .5: T.case(write, n.d, T.rng.random() < .3, n.chain, n.depth, n.pfp, n.num, T.below(1 << 17), t)
        elif r < .8: T.case(fixed, n.raw(t, False)[:45] + bytes([2 + T.rng.randrange(2)]) + T.bytes(32), 4)
        else: b = bytearray(n.raw(t, T.rng.random() < .5)); b[T.rng.randrange(78)] = T.rng.randrange(256); T.case(fixed, bytes(b), 4)
