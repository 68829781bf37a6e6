from .wire import *
from nbc import util
def root(hs):
    if len(hs) == 1: return hs[0]
    if len(hs) & 1: hs = hs + [hs[-1]]
    return root([dsha(hs[i] + hs[i + 1]) for i in range(0, len(hs), 2)])
def txn(T, v, rest):
    w = enc(('c', 'Txn'), v); a = build(('c', 'Txn'), v); b = F.Txn.parse(w + rest)[1]
    for o in (a, b):
        for k in range(3): T.eq(o.hash, dsha(w), 'transaction hash')
        T.eq(o.binary(), w, 'bytes after reading the hash')
def block(T, v, rest):
    w = enc(('c', 'BlockHeader'), v); a = build(('c', 'BlockHeader'), v); b = F.BlockHeader.parse(w + rest)[1]
    for o in (a, b):
        for k in range(3): T.eq(o.hash, dsha(w[:80]), 'block hash')
        T.eq(o.binary(), w, 'bytes after reading the hash')
    T.eq(util.get_block_header(*[getattr(b, n) for n in ('version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce')]), w[:80], 'header bytes')
class Tx(object):
    def __init__(self, h): self.hash = h
def merkle(T, hs, tup):
    xs = [Tx(h) for h in hs]; ys = tuple(xs) if tup else list(xs)
    T.eq(util.get_merkle_root(ys), root(hs), 'root of %d' % len(hs)); T.ok(list(ys) == xs and [x.hash for x in xs] == hs, 'the list is unchanged')
def merkle_txn(T, vs):
    xs = [build(('c', 'Txn'), v) for v in vs]; T.eq(util.get_merkle_root(xs), root([dsha(enc(('c', 'Txn'), v)) for v in vs]), 'root')
def hashes(T, x):
    import hashlib; from nbc.util import hash as H
    n = lambda k, y: hashlib.new(k, y).digest()
    for m in (H, util):
        T.eq(m.sha1(x), n('sha1', x), 'sha1'); T.eq(m.sha256(x), n('sha256', x), 'sha256'); T.eq(m.sha256d(x), dsha(x), 'sha256d'); T.eq(m.ripemd160(x), n('ripemd160', x), 'ripemd160'); T.eq(m.hash160(x), n('ripemd160', n('sha256', x)), 'hash160')
class Stored(object): pass
def stored(T, v, vs):
    from nbc import protocol as P
    b = Stored(); txs = [build(('c', 'Txn'), x) for x in vs]
    h = build(('c', 'BlockHeader'), v)
    for n in ('version', 'merkle_root', 'timestamp', 'bits', 'nonce'): setattr(b, n, getattr(h, n))
    b.previous_hash = h.prev_block; b.transactions = txs
    a = F.BlockHeader.from_block(b); m = P.Block.from_block(b)
    for o in (a, m):
        for n in ('version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce'): T.eq(getattr(o, n), getattr(h, n), n)
    T.eq(a.txn_count, len(txs), 'number of transactions'); T.eq([t.binary() for t in m.txns], [t.binary() for t in txs], 'transactions'); T.eq(a.hash, h.hash, 'hash')
def run(T):
    R = T.rng
    for n in range(0, 140): T.case(hashes, bytes(n)); T.case(hashes, bytes(i * 7 & 255 for i in range(n)))
    for n in range(1, 70): T.case(merkle, [bytes([n, i % 256]) * 16 for i in range(n)], n % 2 == 0)
    for n in (127, 128, 129, 255, 256, 257, 1000, 1001, 2047, 4001): T.case(merkle, [dsha(bytes([i & 255, i >> 8])) for i in range(n)], False)
    while T.more():
        T.case(stored, gen(T, ('c', 'BlockHeader')), [gen(T, ('c', 'Txn')) for _ in range(R.randint(0, 5))])
        T.case(hashes, T.bytes(0, 300))
        T.case(txn, gen(T, ('c', 'Txn')), T.bytes(0, 4)); T.case(block, gen(T, ('c', 'BlockHeader')), T.bytes(0, 4))
        n = R.randint(1, 40); T.case(merkle, [T.bytes(32) for _ in range(n)], R.random() < .5); T.case(merkle_txn, [gen(T, ('c', 'Txn')) for _ in range(R.randint(1, 4))])
