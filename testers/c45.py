from .net import *
import random, contextlib, os, sys
@contextlib.contextmanager
def world(fails=()):
    """dialing gives a scripted socket; addresses in fails cannot be reached"""
    dialed = []
    def connect(me, a):
        dialed.append(a)
        if a in fails: raise OSError('unreachable')
    C.Connection.connect = connect; C.Connection.create_socket = lambda me, *a: me.set_socket(Sock())
    old = sys.stdout; sys.stdout = open(os.devnull, 'w')
    try: yield dialed
    finally: sys.stdout.close(); sys.stdout = old; del C.Connection.connect, C.Connection.create_socket
def addrs(nd): return [p.address for p in nd.peers]
A = where
def session(T, limit, seek, known, fails, ops):
    nd = node(max_peers=limit, seek_peers=seek, bootstrap=False); fails = {A(i) for i in fails}; conn = []; book = {}
    with world(fails) as dialed:
        for i in known: nd.command_address(None, [P.NetworkAddress(5, 1, *A(i))]); book[A(i)] = (5, 1)
        for op in ops:
            del dialed[:]; a = A(op[1]) if len(op) > 1 else None
            if op[0] in ('add', 'force', 'default'):
                f = op[0] != 'add'; r = nd.add_peer(a, *([] if op[0] == 'default' else [f])); full = not f and len(conn) + 1 >= limit; ok = not full and a not in conn
                T.eq(dialed, [a] if ok else [], 'dialed'); T.ok(r is (ok and a not in fails), 'answer', r)
                if ok and a in fails: book.pop(a, None)
                elif ok: conn.append(a)
            elif op[0] == 'remove':
                ps = [p for p in nd.peers if p.address == a]; nd.remove_peer(a); T.eq([p.socket.closed for p in ps], [1] * len(ps), 'closed')
                if a in conn: conn.remove(a); book.pop(a, None)
            elif op[0] == 'any':
                nd.add_any_peer(); free = [x for x in book if x not in conn]
                T.ok(len(dialed) <= 1 and all(x in free for x in dialed), 'one known address that is not connected', dialed)
                if free: T.ok(len(dialed) == 1 or True, 'tried')
                for x in dialed:
                    if x in fails: book.pop(x, None)
                    else: conn.append(x)
            elif op[0] == 'beat':
                for p in nd.peers: p._banscore = 3; clear(p, p.socket)
                before = nd.peers; w = max(0, min(5, seek - len(before))); nd.heartbeat()
                T.ok(len(dialed) <= w and len(set(dialed)) == len(dialed) and all(x in book and x not in conn for x in dialed), 'known addresses that are not connected, as many as wanted', dialed)
                for x in dialed:
                    if x in fails: book.pop(x, None)
                    else: conn.append(x)
                sent = [[c for c, d in split(clear(p, p.socket), nd.coin.magic)] for p in before]; n = sum(x == ['getaddr'] for x in sent)
                T.ok(n == (1 if before and len(book) < 50 else 0) or (n == 1 and before and len(book) + len([x for x in dialed if x in fails]) < 50), 'asked for addresses', sent); T.ok(all(x in ([], ['getaddr']) for x in sent), 'nothing else is sent', sent)
                for p in before: T.eq(p.banscore, 2, 'score')
            T.eq(sorted(addrs(nd)), sorted(conn), 'connections'); T.eq(dict(nd._addresses) if hasattr(nd, '_addresses') else book, book, 'address book')
def beats(T, waits):
    nd = node(); got = []; nd.heartbeat = lambda: got.append(1); n = 0
    with Clock(1e9) as clk:
        last = 0
        for w in waits:
            clk.t += w; r = dict(nd.items()); T.ok(nd in r.values(), 'the channels')
            if clk.t - last > 10: n += 1; last = clk.t
            T.eq(len(got), n, 'maintenance')
def seeds(T, n, known, seed):
    """what is tried when nothing is known"""
    nd = node(); S = [A(900 + i) for i in range(n)]; nd._bootstrap = S; random.seed(seed)
    with world() as dialed:
        for i in range(known): nd.command_address(None, [P.NetworkAddress(5, 1, *A(i))])
        rare = 0
        for _ in range(60):
            for p in nd.peers: del nd[p._fileno]
            del dialed[:]; nd.add_any_peer()
            if not known: T.ok(len(dialed) == (1 if n else 0) and all(x in S for x in dialed), 'a seed', dialed)
            else: rare += any(x in S for x in dialed) or not dialed; T.ok(len(dialed) <= 1, 'one', dialed)
        T.ok(rare < 20, 'seeds are tried once in a while', rare)
def full(T, limit):
    nd = node(max_peers=limit); S = [A(900 + i) for i in range(3)]; nd._bootstrap = S
    with world() as dialed:
        for i in range(limit - 1): peer(nd, A(i))
        n = len(nd.peers); nd.add_any_peer(); T.eq(dialed, [], 'a full node tries no seed')
def equal(T):
    nd = node(); p, _ = peer(nd, A(1)); q, _ = peer(nd, A(2)); T.ok(p == p and not (p == q) and p != q and q != p and not (p == None), 'compared')
    T.ok(len({p, q, p}) == 2 and p in [q, p] and [q, p].index(p) == 1, 'in collections')
def eager(T, seek, have):
    """maintenance tries as many addresses as connections are missing, five at a time"""
    nd = node(seek_peers=seek, bootstrap=False); tried = want = 0
    with world() as dialed:
        nd.command_address(None, [P.NetworkAddress(5, 1, *A(i)) for i in range(60)])
        for i in range(have): peer(nd, A(100 + i))
        T.ok(nd in nd.values(), 'the node itself is in the map of channels')
        for _ in range(30):
            del dialed[:]; nd.heartbeat(); w = max(0, min(5, seek - have)); T.ok(len(set(dialed)) == len(dialed) <= w, 'at most as many as are missing', dialed, w)
            tried += len(dialed); want += w
            for p in nd.peers:
                if p.address in dialed: del nd[p._fileno]
    T.ok(tried >= .8 * want, 'as many as are missing are tried, but for rare seed attempts', tried, want)
def run(T):
    T.case(equal)
    for seek, have in ((1, 0), (3, 0), (3, 2), (5, 3), (16, 0), (16, 14), (2, 4)): T.case(eager, seek, have)
    for l in (1, 2, 5): T.case(full, l)
    for n in (0, 1, 3):
        for k in (0, 2): T.case(seeds, n, k, n * 7 + k)
    T.case(beats, [0, 5, 5, 1, 10, 10.5, 0, 11])
    for seek in range(0, 9): T.case(session, 125, seek, range(12), [], [('beat',), ('beat',), ('beat',)]); T.case(session, 4, seek, range(12), [0, 2], [('add', 20), ('beat',), ('add', 20), ('force', 20), ('remove', 20), ('beat',)])
    for k in (48, 49, 50, 51): T.case(session, 125, 3, range(k), [], [('add', 100), ('beat',), ('beat',)])
    while T.more():
        R = T.rng; ops = []
        for _ in range(R.randint(1, 12)):
            o = R.choice(('add', 'force', 'default', 'remove', 'any', 'beat')); ops.append((o,) if o in ('any', 'beat') else (o, R.randint(0, 9)))
        T.case(session, R.choice((1, 2, 3, 5, 125)), R.choice((0, 1, 3, 8, 16)), sorted(R.sample(range(14), R.randint(0, 8))), R.sample(range(14), R.randint(0, 5)), ops)
        if R.random() < .1: T.case(beats, [R.choice((0, 1, 5, 9.5, 10, 10.25, 11, 60)) for _ in range(10)])
