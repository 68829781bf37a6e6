"""failures of one connection"""
from .net import *
import asyncore, socket
KINDS = [OSError, ConnectionRefusedError, ConnectionResetError, TimeoutError, ValueError, KeyError, AttributeError]
class Logs(BN.BaseNode):
    def log(self, message, peer=None, level=BN.BaseNode.LOG_LEVEL_INFO): self.seen.append((message, peer, level))
    def disconnected(self, peer): self.told.append(peer); BN.BaseNode.disconnected(self, peer)
def fresh(n, **kw):
    nd = node(Logs, **kw); nd.seen, nd.told = [], []; ps = [peer(nd, where(i // 2)) for i in range(n)]          # some share an address
    return nd, ps
def loop(chan, handler):
    try: getattr(chan, handler)()
    except Exception as e: chan.handle_error(); return e
def alive(T, nd, ps, which):
    for i, (p, s) in enumerate(ps): T.ok((p in list(nd.values())) == (i != which) and (s.closed > 0) == (i == which), 'only this connection is closed', i, which, s.closed)
    T.ok(any(v is nd for v in nd.values()) and nd.accepting, 'the node keeps listening')
def handled(T, n, which, kind, closing):
    nd, ps = fresh(n); p, s = ps[which]
    if closing:
        def close(): s.closed += 1; raise OSError('closing')
        s.close = close
    x = KINDS[kind]('failed')
    try: raise x
    except Exception: p.handle_error()
    alive(T, nd, ps, which); T.ok(nd.told == [p], 'the node is told', len(nd.told)); T.ok(len(nd.seen) == 1 and nd.seen[0][1] is p, 'reported', repr(nd.seen)[:200])
    sk = isinstance(x, socket.error); T.eq(nd.seen[0][2], nd.LOG_LEVEL_INFO if sk else nd.LOG_LEVEL_ERROR, 'level')
    if not sk: T.ok('failed' in nd.seen[0][0] and KINDS[kind].__name__ in nd.seen[0][0], 'with what happened', nd.seen[0][0][-100:])
def socket_fails(T, n, which, kind, write):
    nd, ps = fresh(n); p, s = ps[which]; x = KINDS[kind]('failed')
    def fail(*a): raise x
    s.recv = s.send = fail; loop(p, 'handle_write' if write else 'handle_read'); alive(T, nd, ps, which); T.ok(nd.told and all(t is p for t in nd.told), 'the node is told', len(nd.told))
class Queue(object):
    closed = 0
    def __init__(self, f): self.accept = f
    def close(self): self.closed += 1
def accepting(T, n, how, kind, listen):
    nd, ps = fresh(n, **({} if listen else dict(address=None))); x = KINDS[kind]('failed'); s = Sock()
    def accept():
        if how == 'accept': raise x
        return s, ('10.0.9.9', 99)
    if how == 'close':
        def close(): raise x
        s.close = close
    nd.socket = Queue(accept); nd.accepting = True; old = C.Connection
    def fail(*a, **k): raise x
    if how == 'connection': C.Connection = fail
    try: e = loop(nd, 'handle_accept')
    finally: C.Connection = old
    alive(T, nd, ps, -1); T.eq(nd.socket.closed, 0, 'listening socket closed')
    if e is not None: T.ok(len(nd.seen) == 1 and nd.seen[0][2] == nd.LOG_LEVEL_ERROR and 'failed' in nd.seen[0][0], 'reported', repr(nd.seen)[:200])
def ready(T, n):
    nd, ps = fresh(n); nd.begin_loop(); T.ok(nd.readable(), 'ready to accept'); alive(T, nd, ps, -1)
    nd.invalid_command(ps[0][0], b'x', ValueError('bad')) if ps else None; alive(T, nd, ps, -1); T.eq(len(nd.seen), 1 if ps else 0, 'reported')
def run(T):
    for k in range(len(KINDS)):
        for i in range(2): T.case(handled, 2, i, k, i == 1); T.case(socket_fails, 3, i, k, False); T.case(socket_fails, 3, i, k, True)
        for how in ('accept', 'connection', 'close', ''):
            for l in (0, 1): T.case(accepting, 2, how, k, l)
    for n in range(3): T.case(ready, n)
    while T.more():
        n = T.rng.randint(1, 5); w = T.rng.randrange(n); k = T.rng.randrange(len(KINDS)); T.case(handled, n, w, k, T.rng.random() < .3); T.case(socket_fails, n, w, k, T.rng.random() < .5); T.case(accepting, n, T.rng.choice(('accept', 'connection', 'close', '')), k, T.rng.randrange(2))
