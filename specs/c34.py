"""C34: bytes queued leave in order, whole and once."""
from .node import *
def send_attr():
    """the field that keeps bytes to send: the one that holds the announcement of a fresh connection"""
    p = C.Connection(node=new_node(), address=('10.1.2.4', 4568), sock=Sock())
    l = [k for k, v in p.__dict__.items() if isinstance(v, bytes) and len(v) > 24 and v[4:11] == b'version']
    if len(l) != 1: raise Unsupported('the field that keeps bytes to send')
    return l[0]
def state(it):
    """a connection with any bytes to send and any counters"""
    c = it.c; node, o = connection(it, twin=True); at = send_attr(); n = c.fresh('n_queued', 0); S = whole(Sym('queued', n)) ; c.inputs['queued'] = S
    if not c.decide(s_lt(0, n)): S = b''
    tx, ntx = c.fresh('tx', 0), c.fresh('node_tx', 0)
    o.__dict__[at] = S; o._tx_bytes = tx; node._tx_bytes = ntx
    return node, o, at, S, tx, ntx
def counters(it, node, o, tx, ntx):
    it.c.oblige('bytes sent on the connection', it.eqb(it.getattr(o, 'tx_bytes'), tx)); it.c.oblige('bytes sent by the node', it.eqb(node._tx_bytes, ntx))
def wants(it, o, n):
    """the connection wants to write exactly while something is buffered"""
    w = it.call(C.Connection.writable, [o]); it.c.oblige('wants to write exactly while something is queued', s_iff(it.truth(w) if not isinstance(w, (bool, SBool)) else w, s_lt(0, n)))
class Message_(AObj):
    def s_truth(self, it): return True
    def s_str(self, it): return described(it, [], {})
@unit('C34', 'a message is queued whole, behind what is queued', reach=['queued', 'failed'], contracts=NODE)
def u1(it):
    c = it.c; node, o, at, S, tx, ntx = state(it); node._log_level = c.choose(5); wants(it, o, rlen(S))
    m = sbytes(it, 'frame'); n = rlen(m); c.assume(s_lt(0, n)); ok = c.choose(2)
    def binary(it, a, kw):
        c.oblige_by('for the network of the node', len(a) == 1 and not kw and a[0] == node.coin.magic, 'path')
        if not ok: raise ProgExc(ValueError('cannot be written'))
        return m
    c.extra['sock'] = lambda it, d: c.oblige_by('nothing is sent yet', False, 'path')
    try: it.call(C.Connection.send_message, [o, Message_(binary=Fn(binary), _debug=Fn(described))])
    except ProgExc: c.oblige_by('fails only with the message', not ok, 'path'); m = b''; c.reach('failed')
    else: c.reach('queued'); c.oblige_by('a failing message is not swallowed', ok, 'path')
    oblige_eq(it, 'what was queued, then the message', o.__dict__[at], rcat(S, m)); counters(it, node, o, tx, ntx); wants(it, o, rlen(rcat(S, m)))
@unit('C34', 'the socket accepts any number of bytes', reach=['sent', 'failed'], contracts=NODE)
def u2(it):
    c = it.c; node, o, at, S, tx, ntx = state(it); out = [0]; fails = [False]; c.assume(s_lt(0, rlen(S)))
    def sock(it, d):
        n = rlen(d); q = out[0]
        if not c.decide(s_le(s_add(q, n), rlen(S))): c.oblige_by('only queued bytes are sent', False, 'path'); raise PathEnd()
        if not c.oblige('the next queued bytes are sent', it.eqb(d, subseq(S, q, s_add(q, n)))): raise PathEnd()
        if c.choose(2): fails[0] = True; raise ProgExc(OSError('broken pipe'))
        k = c.fresh('accepted', 0); c.assume(s_le(k, n)); out[0] = s_add(q, k); return k
    c.extra['sock'] = sock
    it.call(C.Connection.handle_write, [o])
    oblige_eq(it, 'the rest stays queued', o.__dict__[at], subseq(S, out[0], rlen(S)))
    counters(it, node, o, s_add(tx, out[0]), s_add(ntx, out[0]))
    if fails[0]: c.oblige_by('closed, and the node told', c.extra.get('closed') == 1 and c.extra.get('told') == [o], 'path'); c.reach('failed')
    else: c.oblige_by('stays open', not c.extra.get('closed'), 'path'); wants(it, o, s_add(rlen(S), -out[0])); c.reach('sent')
@unit('C34', 'a new connection has sent nothing', reach=['end'])
def u3(it):
    c = it.c; p = C.Connection(node=new_node(), address=('10.1.2.4', 4568), sock=Sock())
    c.oblige_by('counters', p.tx_bytes == 0 and p.node._tx_bytes == 0 and p.rx_bytes == 0, 'evaluation', repr((p.tx_bytes, p.node._tx_bytes))); c.oblige_by('wants to write', bool(p.writable()), 'evaluation')
