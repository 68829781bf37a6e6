"""C36: scores and bans.  Times are mathematical numbers; the IP is an unknown text."""
from .node import *
from pyvc.interp import SKey
IP = Opaque(('ip',), str)
def score_attr():
    p = C.Connection(node=new_node(), address=('10.1.2.4', 4568), sock=Sock()); b = dict(p.__dict__); p.add_banscore(1237)
    l = [k for k, v in p.__dict__.items() if v == 1237 and b.get(k) == 0]
    if len(l) != 1: raise Unsupported('the field that holds the score')
    return l[0]
def ban_attr():
    nd = new_node(); p = C.Connection(node=nd, address=('10.1.2.4', 4568), sock=Sock()); p.add_banscore(1000); nd.punish_peer(p)
    l = [k for k, v in nd.__dict__.items() if isinstance(v, dict) and '10.1.2.4' in v]
    if len(l) != 1: raise Unsupported('the field that holds the bans')
    return l[0]
class Bans(SObj):
    """any set of bans; only the entry of one IP is looked at"""
    s_logs = True
    def __init__(self, has, at): self.has, self.at = has, at
    def me(self, it, k):
        if not it.c.oblige_by('only the IP of the peer is looked up', it.truth(it.eqb(k, IP)), 'path', repr(k)): raise PathEnd()
    def s_len(self, it): n = it.c.fresh('n_bans', 0, record=False); it.c.assume(s_le(self.has, n)); return n
    def s_truth(self, it): return it.truth(s_lt(0, self.s_len(it)))
    def s_contains(self, it, k): self.me(it, k); return it.c.decide(s_eq(self.has, 1))
    def s_getitem(self, it, k):
        if not self.s_contains(it, k): raise ProgExc(KeyError(k))
        return self.at
    def s_setitem(self, it, k, v): self.me(it, k); self.has, self.at = 1, v
    def s_delitem(self, it, k):
        if not self.s_contains(it, k): raise ProgExc(KeyError(k))
        self.has = 0
    def s_getattr(self, it, a):
        if a in ('get', 'pop'):
            def f(it, x, kw):
                if not self.s_contains(it, x[0]):
                    if a == 'pop' and len(x) < 2: raise ProgExc(KeyError(x[0]))
                    return x[1] if len(x) > 1 else None
                if a == 'pop': self.has = 0
                return self.at
            return Fn(f)
        if a == 'update':
            def f(it, x, kw):
                if kw or len(x) != 1 or not isinstance(x[0], dict): raise Unsupported('update of the bans')
                for k, v in x[0].items(): self.s_setitem(it, k.k if type(k) is SKey else k, v)
            return Fn(f)
        raise Unsupported('method %s of the bans' % a)
def bans(it, node):
    c = it.c; h = c.fresh('banned', 0, 1); at = c.fresh('banned_at', 0); now = c.fresh('now', 0); c.extra['clock'] = lambda it: now
    b = Bans(h, at); node.__dict__[ban_attr()] = b; return b, h, at, now
def s_max0(it, x): return x if it.c.decide(s_le(0, x)) else 0
@unit('C36', 'a score rises and decays by what is given, down to zero', reach=['end'], contracts=NODE)
def u1(it):
    c = it.c; node, o = connection(it); at = score_attr(); s, p = c.fresh('score', 0), c.fresh('penalty', 0); up = c.choose(2); default = c.choose(2)
    o.__dict__[at] = s; it.call(C.Connection.add_banscore if up else C.Connection.reduce_banscore, [o] + ([] if default else [p])); q = 1 if default else p
    oblige_eq(it, 'new score', it.getattr(o, 'banscore'), s_add(s, q) if up else s_max0(it, s_add(s, -q)))
@unit('C36', 'a new peer has no bad score', reach=['end'])
def u0(it): it.c.oblige_by('zero', C.Connection(node=new_node(), address=('10.1.2.3', 1), sock=Sock()).banscore == 0, 'evaluation')
@unit('C36', 'a punishment', reach=['banned', 'kept'], contracts=NODE)
def u2(it):
    c = it.c; node, o = connection(it, address=('10.201.202.203', 51423), twin=True, unknown=(IP, c.fresh('port', 0, 65535))); s = c.fresh('score', 0); o.__dict__[score_attr()] = s; b, h, at, now = bans(it, node)
    it.call(BN.BaseNode.punish_peer, [node, o] + ([] if c.choose(2) else ['reason']))
    oblige_eq(it, 'the score rises by one', it.getattr(o, 'banscore'), s_add(s, 1))
    if c.decide(s_lt(5, s_add(s, 1))):
        c.oblige_by('disconnected, and the node told', c.extra.get('closed') == 1 and c.extra.get('told') == [o], 'path'); c.oblige('banned', s_eq(b.has, 1)); c.oblige('from this moment', it.eqb(b.at, now)); c.reach('banned')
    else:
        c.oblige_by('stays connected', not c.extra.get('closed'), 'path'); c.oblige('bans unchanged', s_and(s_eq(b.has, h), it.eqb(b.at, at))); c.reach('kept')
@unit('C36', 'an incoming connection', reach=['refused', 'served', 'not listening', 'nobody'], contracts=NODE)
def u3(it):
    c = it.c; listen = c.choose(2); node = new_node(**({} if listen else dict(address=None))); it.note_alloc(node); b, h, at, now = bans(it, node); c.assume(s_le(at, now))
    port = c.fresh('port', 0, 65535); made = []; closed = []
    sock = AObj(close=Fn(lambda it, a, kw: closed.append(1))); pair = c.choose(3)
    def k_accept(it, a, kw):
        c.trust('asyncore.dispatcher.accept gives a socket and its address, or None'); return None if not pair else (sock, (IP, port))
    it.contracts[asyncore.dispatcher.accept] = k_accept; it.contracts[print] = lambda it, a, kw: None
    def conn(it, a, kw):
        d = dict(zip(('node', 'address', 'sock'), a)); d.update(kw); made.append(d); return Opaque(('connection',))
    it.contracts[C.Connection] = conn
    it.call(BN.BaseNode.handle_accept, [node])
    if not pair: c.oblige_by('nothing happens', not made and not closed, 'path'); c.oblige('bans unchanged', s_and(s_eq(b.has, h), it.eqb(b.at, at))); c.reach('nobody'); return
    ban = s_and(s_eq(h, 1), s_lt(s_add(now, -at), 3600))
    if c.decide(ban):
        c.oblige_by('closed without being served', closed == [1] and not made, 'path', repr((closed, made))); c.oblige('the ban stays', s_and(s_eq(b.has, 1), it.eqb(b.at, at))); c.reach('refused'); return
    c.oblige('no ban is left', s_eq(b.has, 0))
    if not listen: c.oblige_by('closed: not listening', closed == [1] and not made, 'path'); c.reach('not listening'); return
    c.oblige_by('served', not closed and len(made) == 1 and made[0].get('node') is node and made[0].get('sock') is sock and it.truth(it.eqb(made[0].get('address'), (IP, port))), 'path', repr(made)); c.reach('served')
