"""coins, curves, outpoints"""
from .wire import *
from nbc import coins as C
from nbc.util.ecdsa import curves as CV
import random
OIDS = dict(NIST192p=(1, 2, 840, 10045, 3, 1, 1), NIST224p=(1, 3, 132, 0, 33), NIST256p=(1, 2, 840, 10045, 3, 1, 7), NIST384p=(1, 3, 132, 0, 34), NIST521p=(1, 3, 132, 0, 35), SECP256k1=(1, 3, 132, 0, 10))
def low(x): return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in x)
def up(x): return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in x)
def coin(T, name, symbol, way):
    want = C.Newbitcoin if name and low(name) == 'newbitcoin' or symbol and up(symbol) == 'NBC' else None
    r = C.get_coin(name, symbol) if way == 0 else C.get_coin(name = name, symbol = symbol) if way == 1 else C.get_coin(**dict([('name', name)] * (name is not None) + [('symbol', symbol)] * (symbol is not None)))
    T.ok(r is want, 'coin', name, symbol, r)
def curve(T, oid):
    w = [k for k in OIDS if OIDS[k] == tuple(oid)]
    if w: T.eq(CV.find_curve(tuple(oid)).name, w[0], 'curve')
    else: T.raises(CV.UnknownCurveError, CV.find_curve, tuple(oid))
def outpoints(T, h, i, g, j):
    a, b = F.OutPoint(h, i), F.OutPoint(g, j); same = h == g and i == j
    b = F.OutPoint.parse(b.binary())[1] if i & 1 else b
    T.ok((a == b) is same, 'equality', h, i, g, j); T.ok((b == a) is same, 'equality', h, i, g, j); T.ok((a != b) is (not same), 'inequality', h, i, g, j)
    if same: T.eq(hash(a), hash(b), 'hash')
    T.eq(len({a, b}), 1 if same else 2, 'set'); T.ok((b in {a: 1}) is same, 'dictionary', h, i, g, j)
    for x in (None, h, i, (h, i), [h, i], object(), F.InventoryVector(i, h)): T.ok((a == x) is False and (a != x) is True, 'something else', repr(x))
def mixed(R, w): return ''.join(R.choice((c.lower(), c.upper())) for c in w)
def run(T):
    R = T.rng
    for h in T.hints:
        n, s = h.get('name'), h.get('symbol')
        if isinstance(n, (str, type(None))) and isinstance(s, (str, type(None))): [T.case(coin, n, s, w) for w in range(3)]
        if isinstance(h.get('index1'), int) and isinstance(h.get('index2'), int): [T.case(outpoints, bytes(32), h['index1'], g, h['index2']) for g in (bytes(32), bytes(31) + b'\1')]
        if isinstance(h.get('oid'), (tuple, list)): T.case(curve, h['oid'])
    for n in (None, '', 'newbitcoin', 'NewBitcoin', 'NEWBITCOIN', 'bitcoin', 'newbitcoi', 'newbitcoin ', ' newbitcoin', 'nbc', 'NBC', 'NBCnewbitcoin', 'newbitcoi\u0000'):
        for s in (None, '', 'nbc', 'NBC', 'Nbc', 'nB', 'BTC', 'C', 'N', 'nbcc', 'nbc ', 'newbitcoin', 'NBC,'):
            for w in range(3): T.case(coin, n, s, w)
    for k, o in OIDS.items():
        T.case(curve, o); T.case(curve, o[:-1]); T.case(curve, o + (0,)); T.case(curve, o[1:])
        for i in range(len(o)):
            for d in (-1, 1, 6): T.case(curve, o[:i] + (o[i] + d,) + o[i + 1:])
    T.case(curve, ())
    for i in (0, 1, 2, 255, 256, 0xffffffff):
        for j in (0, 1, 2, 255, 256, 0xffffffff):
            T.case(outpoints, bytes(32), i, bytes(32), j); T.case(outpoints, bytes(32), i, b'\1' + bytes(31), j); T.case(outpoints, bytes(32), i, bytes(31) + b'\x80', j)
    while T.more():
        T.case(coin, mixed(R, 'newbitcoin'), R.choice((None, mixed(R, 'nbc'), mixed(R, 'xyz'))), R.randrange(3)); T.case(coin, R.choice((None, '', mixed(R, 'bitcoin'))), mixed(R, 'nbc'), R.randrange(3))
        o = list(R.choice(list(OIDS.values()))); o[R.randrange(len(o))] = R.randrange(20000); T.case(curve, o)
        h, g = T.bytes(32), T.bytes(32); g = h if R.random() < .5 else g; i = T.below(1 << 32); T.case(outpoints, h, i, g, i if R.random() < .5 else T.below(1 << 32))
        k = R.randrange(32); g = bytes(b ^ (1 if n == k else 0) for n, b in enumerate(h)); T.case(outpoints, h, i, g, i)
