from .net import *
from nbc.protocol import format as F
def rec(i, x): return (x[0], x[1]) + (where(i)[0] if ':' not in where(i)[0] else '9.9.9.9', x[2]) if i < 7 else (x[0], x[1], '%d.%d.%d.%d' % (10 + (i >> 24), i >> 16 & 255, i >> 8 & 255, i & 255), x[2])
def history(T, ops, ask):
    nd = node(); book = {}; peers = {}; svs = {}; at = attr()
    for op in ops:
        if op[0] == 'list':                                    # addresses (seed, count)
            l = [rec(i, x) for i, x in op[1]]
            p, s = peers.setdefault(0, None) or peer(nd, ('10.250.0.1', 5)); peers[0] = (p, s)
            nd.command_address(p, [F.NetworkAddress(t, sv, ip, pt) for t, sv, ip, pt in l])
            for t, sv, ip, pt in l:
                if len(book) < 2500: book[ip, pt] = (t, sv)
                elif (ip, pt) in book: book[ip, pt] = (T, t, sv)          # either is right
        else:
            i, t, sv = op[1:]; a = where(i); p, s = peer(nd, a) if i not in peers else peers[i]; peers[i] = (p, s)
            with Clock(t):
                s.inq.append(W.frame(nd.coin.magic, 'version', W.payload('version', [1, sv or 0, 5, gen_na(), gen_na(), bytes(8), b'x', 0, 1]))) if sv is not None else s.inq.append(b'\xf9'); p.handle_read()
                if sv is None: sv = svs.get(i)
                svs[i] = sv
                nd.command_version_ack(p)
            if len(book) < 2500 or a in book: book[a] = (t, sv) if len(book) < 2500 else (T, t, sv)
        T.ok(len(getattr(nd, at)) <= 2500, 'more than 2500 addresses', len(getattr(nd, at)))
        T.eq(sorted(getattr(nd, at)), sorted(book), 'known addresses')
        for k, v in book.items():
            if v[0] is not T: T.ok(tuple(getattr(nd, at)[k]) == v, 'record of %r' % (k,), getattr(nd, at)[k], v)
            else: book[k] = tuple(getattr(nd, at)[k])
    p, s = peer(nd, ('10.252.0.1', 9)); clear(p, s); nd.command_get_address(p); fr = split(clear(p, s), nd.coin.magic)
    T.ok(len(fr) == 1 and fr[0][0] == 'addr', 'answer', [f[0] for f in fr]); got = P.Message.parse(W.frame(nd.coin.magic, 'addr', fr[0][1]), nd.coin.magic).addr_list
    known = [k for k in book if book[k][1] is not None]; known.sort(key=lambda k: -book[k][0])
    T.eq(len(got), min(1000, len(known)), 'addresses in the answer')
    T.eq([int(a.timestamp) for a in got], [int(book[k][0]) for k in known[:1000]], 'most recently seen first')
    T.eq(len(set((a.address, a.port) for a in got)), len(got), 'distinct addresses')
    for a in got: T.ok((a.address, a.port) in book and (a.timestamp, a.services) == (int(book[a.address, a.port][0]), book[a.address, a.port][1]), 'recorded data of %s' % a.address, (a.timestamp, a.services), book.get((a.address, a.port)))
def attr():
    nd = node(); p, s = peer(nd); nd.command_address(p, [F.NetworkAddress(5, 1, '10.9.8.7', 99)])
    return [k for k, v in nd.__dict__.items() if isinstance(v, dict) and ('10.9.8.7', 99) in v][0]
def gen_na(): return ('S', 'NetworkAddress', [1, 1, ('IP', bytes(10) + b'\xff\xff' + bytes([1, 2, 3, 4])), 5])
def entries(T, n, wrap): 
    b = T.rng.randrange(1 << 16); return [((b + T.rng.randrange(wrap)) & 0xffffff, (T.rng.choice((T.rng.randrange(1 << 32), T.rng.randrange(100), 0)), T.rng.choice((0, 1, T.rng.randrange(1 << 64))), T.rng.choice((8333, 0, T.rng.randrange(1 << 16))))) for _ in range(n)]
def run(T):
    T.case(history, [('list', [(i, (i, 1, 80)) for i in range(1000)])] * 1, 0)
    T.case(history, [('list', [(1000 * j + i, (i, 1, 80)) for i in range(1000)]) for j in range(3)], 0)
    T.case(history, [('list', [(1000 * j + i, (i, 1, 80)) for i in range(1000)]) for j in range(2)] + [('list', [(5000 + i, (i, 1, 80)) for i in range(499)])] + [('ack', i, 50, 1) for i in range(1, 4)], 0)
    while T.more():
        ops = []
        for _ in range(T.rng.randint(0, 5)):
            if T.rng.random() < .6: ops.append(('list', entries(T, T.rng.choice((0, 1, 2, 5, 999, 1000, 700)), T.rng.choice((3, 100, 1 << 20)))))
            else: ops.append(('ack', T.rng.randint(1, 300), float(T.rng.randrange(1 << 31)) + .5, T.rng.choice((None, 0, 1, 5))))
        T.case(history, ops, 0)
