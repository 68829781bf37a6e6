"""C33: the stream of received bytes is cut into frames.

Any byte string is n complete frames followed by an incomplete tail: the frames are an abstract list of byte strings of
at least 24 bytes whose bytes 16..20 hold the length less 24 (the definition of a frame; C29), the tail is shorter than
20 bytes or than the length it announces."""
from .proto import *
from .node import *
def frames(it):
    c = it.c; n = c.fresh('n_frames', 0)
    X = AList('frames', n, cls=bytes, minw=24, mkitem=lambda l, i: l.encoding(i))
    t = c.fresh('n_tail', 0); T = whole(Sym('tail', t)); c.inputs['tail'] = T
    if c.decide(s_lt(t, 20)): pass
    else: c.assume(s_lt(t, s_add(24, val_(subseq(T, 16, 20), 256, None, True))))
    return X, T
def rest(it, i):
    """what is left when i frames were taken"""
    c = it.c; X, T = c.extra['X'], c.extra['T']
    if not c.decide(s_lt(i, X.n)): return T
    c.fact(s_le(24, X.EL(i))); c.fact(s_le(s_add(X.PL(i), X.EL(i)), X.total)); c.fact(s_lt(X.EL(i), (1 << 32) + 24))
    c.fact(s_eq(X.EL(i), s_add(24, val_(norm('b', [('A', X.enc, s_add(X.PL(i), 16), 4)]), 256, None, True))))       # definition of a frame
    return rcat(norm('b', [('A', X.enc, X.PL(i), s_add(X.total, -X.PL(i)))]), T)
class Log(AObj):
    def s_setattr(self, it, a, v): it.log_write(self, a); self.__dict__[a] = v
def inv(it, g, pos): return [('frames handled', s_eq(g['count'], pos)), ('one after the other', it.c.extra['G'].current is None), ('no more frames than there are', s_le(pos, it.c.extra['X'].n))]
LOOP = LoopSpec('frames', [('buf', Defined('b', rest)), ('count', Int(0))], inv, ghost=True, hint=dict(count=('.count',)), variant=None)
# the length of the next frame is computed ahead
def announced(it, i): return it.call(M.Message.first_msg_len, [rest(it, i)])
AHEAD = LoopSpec('frames', [('buf', Defined('b', rest)), ('length', DefinedAny(announced)), ('count', Int(0))], inv, ghost=True, hint=dict(count=('.count',)), variant=None)
# the next frame is taken ahead
def after(it, i): return rest(it, s_add(i, 1)) if it.c.decide(s_lt(i, it.c.extra['X'].n)) else it.c.extra['T']
def taken(it, i): X = it.c.extra['X']; return X.item(i) if it.c.decide(s_lt(i, X.n)) else None
TAKEN = LoopSpec('frames', [('buf', Defined('b', after)), ('payload', DefinedAny(taken)), ('count', Int(0))], inv, ghost=True, hint=dict(count=('.count',)), variant=None)
def k_parse(it, a, kw):
    """the parser is given exactly the next frame; what it answers is arbitrary (C29)"""
    c = it.c; G, X = c.extra['G'], c.extra['X']; i = G.count
    d, magic = a[1], a[2] if len(a) > 2 else kw['magic']
    if not c.decide(s_lt(i, X.n)): c.oblige_by('only complete frames are taken', False, 'path'); raise PathEnd()
    c.oblige_by('the previous frame was handled', G.current is None, 'path')
    if not c.oblige('the frame is the next one', it.eqb(d, X.item(i))): raise PathEnd()
    c.oblige_by('the magic of the network', magic == c.extra['node'].coin.magic, 'path')
    it.setattr(G, 'count', s_add(i, 1))
    r = c.choose(5)
    if r == 1: raise ProgExc(M.UnknownMsgError('unknown'))
    if r == 2: raise ProgExc(M.MsgFormatError('malformed'))
    if r == 3: raise ProgExc(F.ParameterError('field', b''))
    if r == 4: raise ProgExc(IndexError('anything'))
    G.current = Opaque(('message', i)); return G.current
def k_handle(it, a, kw):
    c = it.c; G = c.extra['G']; m = a[1]
    c.oblige_by('the message of the frame is handled, once', m is not None and m is G.current, 'path', repr(m)); G.current = None
    if c.choose(2): raise ProgExc(KeyError('a failing handler'))
    return None
@unit('C33', 'one chunk after any history', loops=[LOOP, AHEAD, TAKEN], reach=['loop frames body', 'end'], contracts=dict(NODE, **{}), max_paths=20000)
def u1(it):
    c = it.c; node, o = connection(it); buf = buffer_attr(it, node, o)
    X, T = frames(it); G = Log(count=0, current=None); c.extra.update(X=X, T=T, G=G, node=node, loop_lvs=[(G, 'count')])
    it.contracts[fn_of(M.Message, 'parse')] = k_parse; it.contracts[C.Connection.handle_message] = k_handle
    B = rest(it, 0); r = c.fresh('had', 0); c.assume(s_lt(r, rlen(B)))
    R, ch = rslice(B, 0, r), rslice(B, r, rlen(B))
    rx, nrx = c.fresh('rx', 0), c.fresh('node_rx', 0)
    o.__dict__[buf] = R; o._rx_bytes = rx; node._rx_bytes = nrx
    c.extra['sock'] = lambda it, k: ch
    it.call(C.Connection.handle_read, [o])
    c.oblige('every complete frame was handled', s_eq(G.count, X.n)); c.oblige_by('and its message', G.current is None, 'path')
    oblige_eq(it, 'the incomplete tail is kept', o.__dict__[buf], T)
    c.oblige('bytes received on the connection', it.eqb(it.getattr(o, 'rx_bytes'), s_add(rx, rlen(ch))))
    c.oblige('bytes received by the node', it.eqb(node._rx_bytes, s_add(nrx, rlen(ch))))
    c.oblige_by('the connection stays open', not c.extra.get('closed'), 'path')
@unit('C33', 'the other side closes', reach=['empty', 'failed'], contracts=dict(NODE))
def u2(it):
    c = it.c; node, o = connection(it, twin=True); c.extra['node'] = node
    it.contracts[fn_of(M.Message, 'parse')] = lambda it, a, kw: c.oblige_by('nothing is handled', False, 'path')
    R = sbytes(it, 'had'); buf = buffer_attr(it, node, o); o.__dict__[buf] = R
    how = c.choose(2)
    def sock(it, k):
        if how: raise ProgExc(OSError('reset'))
        return b''
    c.extra['sock'] = sock
    it.call(C.Connection.handle_read, [o])
    c.oblige_by('the connection is closed and the node told', c.extra.get('closed') == 1 and c.extra.get('told') == [o], 'path', repr((c.extra.get('closed'), c.extra.get('told')))); c.reach(['empty', 'failed'][how])
for name in MESSAGES:
    @unit('C33', 'a %s message reaches its handler once, with its fields' % name, reach=['called'], max_paths=20000, **dict(PK, contracts={**PC, **NODE}))
    def u3(it, name=name):
        c = it.c; node, o = connection(it); cls = MSGCLS[name]; fs = [f for f, t in MESSAGES[name]]
        vals = {f: field(it, t, f)[0] for f, t in MESSAGES[name]}
        m = it.call(cls, [], dict(vals)) if fs else it.call(cls, [])
        calls = []; told = []
        it.contracts[BN.BaseNode.connected] = lambda it, a, kw: told.append((a[1], it.getattr(o, 'external_ip')))
        node._log_level = c.choose(5); it.contracts.update(DESCRIBED); method = 'command_' + it.getattr(m, 'name')
        if c.choose(2):
            def handler(it, a, kw): calls.append((a, kw)); return None
            node.__dict__[method] = Fn(handler)
        elif hasattr(BN.BaseNode, method): raise PathEnd()
        else:
            it.call(C.Connection.handle_message, [o, m]); c.reach('no handler'); return
        it.call(C.Connection.handle_message, [o, m])
        if not c.oblige_by('one call', len(calls) == 1 and calls[0][0][0] is o and len(calls[0][0]) == 1, 'path', repr(calls)): return
        kw = calls[0][1]; c.oblige_by('every field is passed', sorted(kw) == sorted(fs), 'path', repr(sorted(kw)))
        for f in fs: oblige_eq(it, 'field %s' % f, kw[f], it.getattr(m, f))
        c.oblige_by('acknowledged exactly after a verack', it.getattr(o, 'verack') is (name == 'verack'), 'path')
        if name == 'version':
            for f in ('services', 'start_height', 'user_agent', 'version', 'relay'): oblige_eq(it, 'remembered %s' % f, it.getattr(o, f), it.getattr(m, f))
            oblige_eq(it, 'remembered external address', it.getattr(o, 'external_ip'), it.getattr(it.getattr(m, 'addr_recv'), 'address'))
            c.oblige_by('the node is told', len(told) == 1 and told[0][0] is o, 'path', repr(told))
            if told: oblige_eq(it, 'once the external address is known', told[0][1], it.getattr(it.getattr(m, 'addr_recv'), 'address'))
        else: c.oblige_by('no new version', not told and it.getattr(o, 'external_ip') is None, 'path')
        c.reach('called')
