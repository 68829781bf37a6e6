from .net import *
def session(T, ops, level):
    """ops: ('msg', name, values) | ('write', accepted) | ('fail',)"""
    nd = node(); nd.log_level = level; o, s = peer(nd, twin=True); magic = nd.coin.magic
    T.ok(o.writable(), 'announcement queued')
    sent = b''; first = None
    for op in ops:
        if op[0] == 'msg':
            m = W.make(op[1], [v for v in op[2]])
            try: o.send_message(m)
            except Exception:
                if level > 1 or op[1] not in ('alert', 'block'): raise       # logged forms of a meaningless alert or a block with a fractional time
            else: sent += W.frame(magic, op[1], W.payload(op[1], op[2]))
        elif op[0] == 'write':
            if not o.writable(): continue
            s.accept_n = [op[1]]; o.handle_write(); s.accept_n = []
        else:
            if not o.writable(): continue
            before = (o.tx_bytes, nd._tx_bytes); s.accept_n = [OSError('broken')]; o.handle_write(); s.accept_n = []
            T.eq((o.tx_bytes, nd._tx_bytes), before, 'counters after a failing write'); T.ok(s.closed > 0, 'closed after a failing write'); T.eq(o.tx_bytes, len(s.out), 'bytes accepted'); return
        T.eq(o.tx_bytes, len(s.out), 'bytes sent on the connection'); T.eq(nd._tx_bytes, len(s.out), 'bytes sent by the node'); T.eq(s.closed, 0, 'closed')
    n = 0
    while o.writable():
        a = len(s.out); o.handle_write(); n += 1; T.ok(len(s.out) > a, 'wants to write, but nothing is queued')
    fr = split(s.out, magic); T.eq(fr[0][0] if fr else None, 'version', 'the first message')
    vlen = 24 + len(fr[0][1]); T.eq(s.out[vlen:], sent, 'bytes sent'); T.eq(o.tx_bytes, len(s.out), 'bytes sent on the connection')
def op(T):
    r = T.rng.random()
    if r < .4: n = T.rng.choice(list(W.MSG)); return ('msg', n, [W.gen(T, t) for f, t in W.MSG[n][1]])
    return ('write', T.rng.choice((0, 1, 2, 5, 23, 24, 25, 50, 100, 1000, 100000)))
def run(T):
    while T.more():
        ops = [op(T) for _ in range(T.rng.randint(0, 12))]
        if T.rng.random() < .2: ops.append(('fail',))
        T.case(session, ops, T.rng.choice((0, 1, 2, 3, 4)))
