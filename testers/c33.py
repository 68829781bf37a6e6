from .net import *
class Node(BN.BaseNode):
    def __getattribute__(self, a):
        if a.startswith('command_'):
            def rec(peer, **kw):
                self.events.append((a, kw))
                if self.fails and self.fails.pop(0): raise RuntimeError('handler failed')
            return rec
        return BN.BaseNode.__getattribute__(self, a)
def build(kind, name, vs, x, magic):
    """(frame, is a message handed over)"""
    if kind == 'ok': return W.frame(magic, name, W.payload(name, vs)), True
    if kind == 'magic': return W.frame(bytes(b ^ 1 for b in magic), name, W.payload(name, vs)), False
    if kind == 'sum': f = W.frame(magic, name, W.payload(name, vs)); return f[:20] + bytes([f[20] ^ 1]) + f[21:], False
    if kind == 'unknown': return W.frame(magic, 'nosuchthing', x), False
    if kind == 'cut': return W.frame(magic, name, W.payload(name, vs)[:-2]), False
def stream(T, parts, cuts, fails):
    nd = node(Node); nd.events = []; nd.fails = list(fails); o, s = peer(nd, twin=True); magic = nd.coin.magic; nd.events = []
    data = b''; ends = []
    for kind, name, vs, x in parts:
        if kind == 'tail': continue
        f, good = build(kind, name, vs, x, magic)
        data += f; ends.append((len(data), name if good else None, vs))
    if parts and parts[-1][0] == 'tail': data += parts[-1][3]
    rx0, nrx0 = o.rx_bytes, nd._rx_bytes; pos = 0; cuts = list(cuts)
    while pos < len(data):
        k = cuts.pop(0) if cuts else len(data) - pos
        s.inq.append(data[pos:pos+k]); o.handle_read(); pos = min(pos + k, len(data))
        want = [(n, v) for e, n, v in ends if n is not None and e <= pos]
        T.eq(len(nd.events), len(want), 'messages handled after %d bytes' % pos)
        for (m, kw), (n, vs) in zip(nd.events, want):
            fs = W.MSG[n][1]; T.eq(m, 'command_' + getattr(P, W.MSG[n][0])(**{f: W.build(t, v) for (f, t), v in zip(fs, vs)}).name, 'handler'); T.eq(sorted(kw), sorted(f for f, t in fs), 'fields')
            for (f, t), v in zip(fs, vs): W.check(T, t, kw[f], v, f)
        vs = [kw for m, kw in nd.events if m == 'command_version']
        if vs:
            for f in ('services', 'start_height', 'user_agent', 'version', 'relay'): T.eq(getattr(o, f), vs[-1][f], 'remembered ' + f)
            T.eq(o.external_ip, vs[-1]['addr_recv'].address, 'the address it sees'); 
        T.eq(o.rx_bytes - rx0, pos, 'bytes received on the connection'); T.eq(nd._rx_bytes - nrx0, pos, 'bytes received by the node')
        T.eq(s.closed, 0, 'closed')
    s.inq.append(b''); o.handle_read(); T.ok(s.closed > 0, 'closed at the end')
def kinds(T):
    k = T.rng.choice(('ok', 'ok', 'ok', 'ok', 'magic', 'sum', 'unknown', 'cut')); n = T.rng.choice(list(W.MSG)); 
    if k == 'cut': n = T.rng.choice(('ping', 'pong', 'inv', 'addr', 'getheaders', 'reject', 'alert'))
    return (k, n, [W.gen(T, t) for f, t in W.MSG[n][1]], T.bytes(0, 30) if k == 'unknown' else b'')
def run(T):
    for n in (0x7fffffff, 0x80000000, 0xffffffe7, 0xffffffe8, 0xffffffe9, 0xfffffff0, 0xffffffff):
        for p in (b'', bytes(8), W.frame(b'\xf9\xbe\xb4\xd9', 'ping', bytes(8))):
            f = W.frame(b'\xf9\xbe\xb4\xd9', 'ping', p); T.case(stream, [('tail', '', [], f[:16] + n.to_bytes(4, 'little') + f[20:])], [4, 20], [])
    while T.more():
        parts = [kinds(T) for _ in range(T.rng.randint(0, 6))]
        if T.rng.random() < .6: parts.append(('tail', '', [], W.frame(b'\xf9\xbe\xb4\xd9', 'ping', bytes(8))[:T.rng.randint(1, 31)]))
        mode = T.rng.random(); cuts = [1] * 3000 if mode < .2 else [T.rng.choice((1, 3, 4, 19, 20, 21, 23, 24, 25, 32, 100)) for _ in range(200)] if mode < .8 else []
        T.case(stream, parts, cuts, [T.rng.random() < .3 for _ in range(8)])
