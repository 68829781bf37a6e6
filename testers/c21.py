import os, tempfile, shutil, json
from nbc import wallet as W
from testers.wallets import *
from testers import wallets, c22, refaes
def trip(T, w, p, forms):
    d = tempfile.mkdtemp(prefix='verif_wallet_')
    try:
        f = os.path.join(d, 'w.cfg'); W.saveTo(f, w, *([] if p is None else [p])); t = open(f).read()
        W.saveTo(f + '2', w, *([] if p is None else [p])); W.saveTo(f + '2', w, *([] if p is None else [p])); T.eq(open(f + '2').read(), t, 'saved over an older file')
        return t, W.loadFrom(f, *([] if p is None else [p])), (W.loadFrom(f, p.decode('latin-1')) if p else None)
    finally: shutil.rmtree(d)
def clear(T, t, p, secret, others):
    if not p: return
    for x in others: T.ok(x.decode('latin-1').lower() not in t.lower() if isinstance(x, bytes) else x not in t, 'the file contains the private key in clear', x)
    k = p[:16].ljust(16, b'\0'); m = b'%02x' % len(secret) + secret; m += bytes(-len(m) % 16); j = json.loads(t)
    T.eq(j['prvkey'], refaes.cbc(k, bytes(16), m).hex(), 'AES-CBC of the private key'); T.ok(j['encrypted'] is True, 'marked as encrypted')
def frags(b):
    out = [b.hex().encode()] + [b.hex()[i:i + 24].encode() for i in range(0, len(b) * 2 - 23, 8)]
    return out
def address(T, d, comp, vcn, testnet, priv, p):
    A = c22.make(d, comp, vcn, testnet, priv); t, B, C = trip(T, A, p, 0)
    for x in (A, B, C):
        if x is not None: T.ok(isinstance(x, W.Address), 'an address'); c22.view(T, x, d, comp, A.vcn, testnet, priv)
    if priv: w = ref.wif(b32(d), comp); clear(T, t, p, w, [w] + ([str(d)] if d >> 64 else []) + frags(w) + (frags(b32(d)) if len(set(b32(d))) > 15 else []))
def hd(T, d, pub, chain, depth, pfp, num, vcn, testnet, p):
    n = Node(d, None, chain, depth, pfp, num if depth else 0); n = n.neuter() if pub else n; w = wallets.make(n, vcn, testnet); t, B, C = trip(T, w, p, 0)
    for x in (w, B, C):
        if x is not None: T.ok(isinstance(x, W.HDWallet), 'an HD wallet'); same(T, x, n, vcn, testnet)
    if not pub: clear(T, t, p, b32(d), ([str(d)] if d > 1 << 64 else []) + (frags(b32(d)) if len(set(b32(d))) > 15 else []))
def text(T, p):
    """a text as passphrase: refused, or encrypted"""
    d = tempfile.mkdtemp(prefix='verif_wallet_')
    try:
        f = os.path.join(d, 'w'); A = c22.make(77777, True, 0, False, True)
        try: W.saveTo(f, A, p)
        except Exception: T.ok(not os.path.exists(f) or not open(f).read(), 'a file was written'); return
        T.ok(A.privKey.hex() not in open(f).read() and A.privKey.decode() not in open(f).read(), 'key in clear'); T.eq(W.loadFrom(f, p).privKey, A.privKey, 'loaded')
    finally: shutil.rmtree(d)
def run(T):
    P = [None, b'', b'p', b'passphrase', b'x' * 15, b'y' * 16, b'z' * 17, b'longer than sixteen bytes', b'\0', b'ab\0', bytes(range(128, 160)), b'\xff' * 16]
    for k, p in enumerate(P):
        for comp in (False, True):
            for priv in (False, True): T.case(address, EDGE[k % len(EDGE)], comp, (0, 65535, 65536 + 7)[k % 3], k % 2 == 0, priv, p); T.case(hd, EDGE[k % len(EDGE)], not priv, bytes(range(32)) if comp else bytes(32), (0, 1, 255)[k % 3], b'\0\1\2\xff', (0, 2 ** 32 - 1)[k % 2], k * 9000, comp, p)
    for h in T.hints:
        d = h['secret'] % (N - 1) + 1 if isinstance(h.get('secret'), int) else 7; f = lambda n, m: h[n] % m if isinstance(h.get(n), int) else 3; p = h.get('passphrase'); p = p if isinstance(p, bytes) and p else None
        for comp in (False, True):
            for priv in (False, True): T.case(address, d, comp, f('vcn', 1 << 20), comp, priv, p); T.case(hd, d, priv, h['chain'] if isinstance(h.get('chain'), bytes) and len(h['chain']) == 32 else bytes(32), f('depth', 256), b'abcd', f('childnum', 1 << 32), f('vcn', 1 << 20), comp, p)
    for d in small()[:6]:
        for priv in (False, True): T.case(hd, d, not priv, bytes(32), 0, b'', 0, 5, True, b'q'); T.case(address, d, priv, 5, True, not priv, b'q')
    for p in ('x', 'passphrase'): T.case(text, p)
    while T.more():
        p = None if T.rng.random() < .3 else T.bytes(1, 40); n = node(T)
        if T.rng.random() < .5: T.case(address, 1 + T.below(N - 1), T.rng.random() < .5, T.below(1 << 17), T.rng.random() < .5, T.rng.random() < .7, p)
        else: T.case(hd, n.d, T.rng.random() < .3, n.chain, n.depth, n.pfp, n.num, T.below(1 << 17), T.rng.random() < .5, p)
