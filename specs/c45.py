"""C45: which connections the node opens, and the periodic maintenance.

Any number of channels and of known addresses; addresses are only compared, so what matters of one is whether it is that
of a channel."""
from .node import *
def chan_attr():
    """the field that maps channels: it holds the node itself"""
    nd = new_node(); l = [k for k, v in nd.__dict__.items() if isinstance(v, dict) and any(x is nd for x in v.values())]
    if len(l) != 1: raise Unsupported('the field that holds the channels')
    return l[0]
def book_attr():
    from .c35 import book_attr as b
    return b()
class Addr(Opaque):
    """an address; whether it is that of a channel is a 0/1 unknown"""
    def __init__(self, key): Opaque.__init__(self, key)
    def s_eq(self, it, o):
        c = it.c
        if isinstance(o, ChanAddr):
            i = o.i; s = in_use(it, self); x, new = c.atom2(('same', self.key, i), 'same')
            if new:
                w = witness(it, self); c.fact(s_and(s_le(0, x), s_le(x, s))); c.fact(s_implies(s_and(s_eq(s, 1), s_eq(i, w)), s_eq(x, 1)))
            return s_eq(x, 1)
        if isinstance(o, Addr) and o.key == self.key: return True
        raise Unsupported('comparison of addresses')
class ChanAddr(Opaque):
    """the address of channel i"""
    def __init__(self, i): Opaque.__init__(self, ('chan address', i)); self.i = i
    def s_eq(self, it, o):
        if isinstance(o, Addr): return o.s_eq(it, self)
        raise Unsupported('comparison of addresses')
def in_use(it, a):
    x, new = it.c.atom2(('in use', a.key), 'in_use')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, 1))); it.c.fact(s_implies(s_lt(it.c.extra['n'], 1), s_eq(x, 0)))
    return x
def witness(it, a):
    """a channel that has the address, when one has"""
    w, new = it.c.atom2(('who', a.key), 'who')
    if new:
        it.c.fact(s_le(0, w)); it.c.fact(s_implies(s_eq(in_use(it, a), 1), s_lt(w, it.c.extra['n']))); it.c.extra.setdefault('witnesses', []).append(w)
    return w
class Chan(Opaque):
    """channel i: a connection, or the node itself (which has an address too)"""
    def __init__(self, i): Opaque.__init__(self, ('channel', i), C.Connection); self.i = i
    def s_truth(self, it): return True
    def s_isinstance(self, it, t): return issubclass(C.Connection, t)
    def s_getattr(self, it, a):
        if a == 'address': return ChanAddr(self.i)
        if a in ('handle_close', 'send_message', 'reduce_banscore'): return Fn(lambda it, x, kw: it.c.extra[a](it, self.i, x, kw))
        raise Unsupported('attribute %s of a peer' % a)
class Chans(Base):
    elem_lo = elem_hi = None; name = 'channels'; _key = ('channels',)
    def __init__(self, n): self.n = n
    def elem(self, i): return Chan(i)
class InUse(SObj):
    """the addresses of the channels, in any order"""
    def s_contains(self, it, a):
        if isinstance(a, Addr): return it.c.decide(s_eq(in_use(it, a), 1))
        raise Unsupported('another address')
    def s_set(self, it): return self
def comp_rule(it, src, seq, elem):
    if not (isinstance(src, Rope) and len(src.segs) == 1 and isinstance(src.segs[0][1], Chans)): return None
    n = it.c.extra['n']
    if not it.c.decide(s_lt(0, n)): return None
    i = it.c.fresh('any', 0, record=False); it.c.fact(s_lt(i, n)); return InUse() if isinstance(elem(i), ChanAddr) else None
class Map(SObj):
    """the channel map of the node"""
    def __init__(self, X): self.X = X
    def s_len(self, it): return self.X.n
    def s_truth(self, it): return it.truth(s_lt(0, self.X.n))
    def s_getattr(self, it, a):
        if a == 'values': return Fn(lambda it, x, kw: norm('l', [('A', self.X, 0, self.X.n)]))
        if a in ('items', 'keys'): return Fn(lambda it, x, kw: Opaque(('map', a)))
        raise Unsupported('method %s of the channel map' % a)
def world(it, peers=False):
    """a node with any number of channels; with peers: the connections are n of them"""
    c = it.c; node = new_node(); it.note_alloc(node); n = c.fresh('n_channels', 0 if peers else 1); X = Chans(n); c.extra.update(n=n, X=X, node=node)
    if peers:
        def k_peers(it, a, kw): c.trust('peers are the connections of the map (C37)'); return norm('l', [('A', X, 0, n)])
        it.contracts[BN.BaseNode.peers.fget] = k_peers
    else: node.__dict__[chan_attr()] = Map(X)
    return node, n
def seen(it, g, pos):
    """none of the channels gone through has the address"""
    c = it.c; a = c.extra['target']; w = witness(it, a); return [('not found yet', s_implies(s_eq(in_use(it, a), 1), s_le(pos, w)))]
SEEK = LoopSpec('looking for an address', [], seen)
@unit('C45', 'asked to connect', loops=[SEEK], comp_rule=comp_rule, reach=['full', 'known', 'failed', 'connected'], contracts=NODE, max_paths=20000)
def u0(it):
    c = it.c; node, n = world(it); a = c.extra['target'] = Addr(('asked',)); c.extra['exists_case'] = lambda it: c.decide(s_eq(in_use(it, a), 1)); made = []; mx = c.fresh('max_peers', 0); it.contracts[print] = lambda it, a, kw: None
    c.oblige_by('one limit', [k for k, v in new_node(max_peers=7654).__dict__.items() if v == 7654] != [], 'path'); node.__dict__[[k for k, v in new_node(max_peers=7654).__dict__.items() if v == 7654][0]] = mx
    def conn(it, x, kw):
        d = dict(zip(('node', 'address', 'sock'), x)); d.update(kw); made.append(d)
        if c.choose(2): d['ok'] = 0; raise ProgExc((OSError, RuntimeError, F_ParameterError)[c.choose(3)]('no'))
        d['ok'] = 1; return Opaque(('connection',))
    it.contracts[C.Connection] = conn
    f = c.choose(3); args = [a] + ([] if f == 2 else [bool(f)]); force = f != 0
    r = it.call(BN.BaseNode.add_peer, [node] + args); known = c.decide(s_eq(in_use(it, a), 1)); full = not force and c.decide(s_le(mx, n))
    if known or full: c.oblige_by('refused', r is False and not made, 'path', repr((r, made))); c.reach('full' if full else 'known'); return
    if not c.oblige_by('one connection, to the address', len(made) == 1 and made[0].get('address') is a and made[0].get('node') is node and made[0].get('sock') is None, 'path', repr(made)): return
    c.oblige_by('the answer tells whether it was made', r is bool(made[0]['ok']), 'path', repr(r)); c.reach('connected' if made[0]['ok'] else 'failed')
def F_ParameterError(x): from nbc.protocol import format as F; return F.ParameterError('address', x)
# ---- known addresses
class Book(SObj):
    """the known addresses: N of them; whether the i-th is connected is unknown"""
    def __init__(self, n): self.n = n
    def s_len(self, it): return self.n
    def s_truth(self, it): return it.truth(s_lt(0, self.n))
    def s_iter(self, it): return SIter(self.n, lambda i: Known(i), ('book', self))
    def s_getattr(self, it, a):
        if a == 'keys': return Fn(lambda it, x, kw: self)
        raise Unsupported('method %s of the address book' % a)
class Known(Addr):
    def __init__(self, i): Addr.__init__(self, ('known', i)); self.i = i
def tried(it, g, pos):
    c = it.c; q = c.extra['q']; return [('only connected ones were passed over', s_implies(s_eq(c.extra['free'], 1), s_le(pos, q))), ('nothing was opened', not c.extra['opened'])]
def at_body(it, g, pos): c = it.c; c.fact(s_implies(s_and(s_eq(c.extra['free'], 1), s_eq(pos, c.extra['q'])), s_eq(in_use(it, Known(pos)), 0))); c.fact(s_implies(s_eq(c.extra['free'], 0), s_eq(in_use(it, Known(pos)), 1)))
FREE = LoopSpec('looking for a free address', [], tried, at_body=at_body)
def rnd(it, k):
    it.contracts[random.randint.__func__] = lambda it, a, kw: k(it, a[1:], kw)
    it.contracts[random.randrange.__func__] = lambda it, a, kw: k(it, [0 if len(a) == 2 else a[1], s_add(a[-1], -1)], kw)
@unit('C45', 'looking for one more peer', loops=[FREE], comp_rule=comp_rule, reach=['a seed', 'no seed', 'a known address', 'all connected'], contracts=NODE, max_paths=20000)
def u1(it):
    c = it.c; node, n = world(it, True); opened = c.extra['opened'] = []; N = c.fresh('n_known', 0); node.__dict__[book_attr()] = Book(N)
    # q: the first known address that is not connected, when there is one
    free = c.extra['free'] = c.fresh('one_is_free', 0, 1); q = c.extra['q'] = c.fresh('free', 0); c.assume(s_implies(s_eq(free, 1), s_lt(q, N))); c.fact(s_implies(s_eq(free, 1), s_eq(in_use(it, Known(q)), 0)))
    seeds = c.choose(4); S = [Opaque(('seed', i)) for i in range(seeds)]; node.__dict__[seed_attr()] = S if seeds or c.choose(2) else None; it.note_alloc(S); luck = []
    def k_randint(it, a, kw):
        lo, hi = a; c.trust('random.randint(a, b) is between a and b'); x = c.fresh('random', record=False)
        if not c.oblige('a range', s_le(lo, hi)): raise PathEnd()
        c.fact(s_and(s_le(lo, x), s_le(x, hi))); luck.append((lo, hi, x)); return x
    rnd(it, k_randint)
    def k_choice(it, a, kw):
        if a[1] is not S: raise Unsupported('a choice from something else')
        if not S: raise ProgExc(IndexError('empty sequence'))
        c.trust('random.choice gives an element'); return S[c.choose(len(S))]
    it.contracts[random.choice.__func__] = k_choice
    def add(it, a, kw):
        a = list(a[1:]); force = kw.get('force', a[1] if len(a) > 1 else True); opened.append((kw.get('address', a[0] if a else None), force)); return bool(c.choose(2))
    it.contracts[BN.BaseNode.add_peer] = add; it.call(BN.BaseNode.add_any_peer, [node])
    none = c.decide(s_eq(N, 0)); rare = any(c.concrete(x) is not None and c.entails(s_le(199, s_add(hi, s_mul(-1, lo)))) for lo, hi, x in luck)
    if len(opened) > 1: c.oblige_by('at most one connection', False, 'path', repr(opened)); return
    if opened:
        a, force = opened[0]
        if isinstance(a, Known): c.oblige('an address that is not connected', s_eq(in_use(it, a), 0)); c.oblige('a known one', s_and(s_le(0, a.i), s_lt(a.i, N))); c.reach('a known address'); return
        c.oblige_by('a seed of the network', any(a is x for x in S), 'path', repr(a)); c.oblige_by('seeds are tried when no address is known, or once in a while', none or rare, 'path'); c.oblige_by('not when there are peers enough', force is False, 'path'); c.reach('a seed'); return
    if none or rare: c.oblige_by('a seed is tried', not S, 'path'); c.reach('no seed'); return
    c.oblige('every known address is connected', s_eq(free, 0)); c.reach('all connected')
def seed_attr():
    nd = new_node(); l = [k for k, v in nd.__dict__.items() if isinstance(v, list) and v == nd.coin.dns_seeds]
    if len(l) != 1: raise Unsupported('the field that holds the seeds')
    return l[0]
@unit('C45', 'the seeds are those of the coin, or none', reach=['end'])
def u2(it):
    c = it.c; nd = new_node(); c.oblige_by('those of the coin', nd.__dict__[seed_attr()] == nd.coin.dns_seeds and nd.__dict__[seed_attr()] is not nd.coin.dns_seeds, 'evaluation'); c.oblige_by('none', not new_node(bootstrap=False).__dict__.get(seed_attr()), 'evaluation')
# ---- maintenance
class Ghost(AObj):
    def s_setattr(self, it, a, v): it.log_write(self, a); self.__dict__[a] = v
FORGIVE = LoopSpec('forgiving', [('count', Int(0))], lambda it, g, pos: [('one after the other', s_eq(g['count'], pos))], hint=dict(count=('.count',)))
def field_of(arg):
    l = [k for k, v in new_node(**{arg: 7654}).__dict__.items() if v == 7654]
    if len(l) != 1: raise Unsupported('the field that holds ' + arg)
    return l[0]
@unit('C45', 'maintenance', loops=[FORGIVE], comp_rule=comp_rule, reach=['end', 'asked', 'not asked', 'loop forgiving body'], contracts=NODE, max_paths=20000)
def u3(it):
    c = it.c; node, n = world(it, True); G = Ghost(count=0); c.extra['loop_lvs'] = [(G, 'count')]; seek = c.fresh('seek_peers', 0); N = c.fresh('n_known', 0); node.__dict__[field_of('seek_peers')] = seek; node.__dict__[book_attr()] = Book(N)
    want = 0
    if c.decide(s_lt(n, seek)):
        for want in (1, 2, 3, 4, 5):
            if want == 5 or c.decide(s_eq(seek, s_add(n, want))): break
    added = []; asked = []
    it.contracts[BN.BaseNode.add_any_peer] = lambda it, a, kw: added.append(1)
    def k_choice(it, a, kw):
        if not c.oblige('a peer to choose', s_lt(0, n)) or not c.oblige_by('one of the peers', same_list(it, a[0]), 'path', repr(a[0])): raise PathEnd()
        c.trust('random.choice gives an element'); j = c.fresh('chosen', 0, record=False); c.fact(s_lt(j, n)); return Chan(j)
    it.contracts[random.choice.__func__] = lambda it, a, kw: k_choice(it, a[1:], kw)
    def k_randint(it, a, kw):
        lo, hi = a
        if not c.oblige('a range', s_le(lo, hi)): raise PathEnd()
        x = c.fresh('random', record=False); c.fact(s_and(s_le(lo, x), s_le(x, hi))); return x
    rnd(it, k_randint)
    c.extra['send_message'] = lambda it, i, x, kw: asked.append((i, x[0]))
    def reduce(it, i, x, kw):
        c.oblige('the next peer', s_eq(i, G.count)); p = kw.get('penalty', x[0] if x else 1); c.oblige('by one', s_eq(p, 1)); it.setattr(G, 'count', s_add(G.count, 1))
    c.extra['reduce_banscore'] = reduce; c.extra['handle_close'] = lambda it, i, x, kw: c.oblige_by('no peer is closed', False, 'path')
    it.call(BN.BaseNode.heartbeat, [node])
    c.oblige_by('as many attempts as peers are wanted, at most five', len(added) == want, 'path', '%d for %d' % (len(added), want)); c.oblige('every peer is forgiven a little', s_eq(G.count, n))
    if c.decide(s_and(s_lt(0, n), s_lt(N, 50))):
        if c.oblige_by('one peer is asked for addresses', len(asked) == 1 and type(asked[0][1]) is BN.protocol.GetAddress, 'path', repr(asked)): c.oblige('a connected one', s_and(s_le(0, asked[0][0]), s_lt(asked[0][0], n)))
        c.reach('asked')
    else: c.oblige_by('nobody is asked', not asked, 'path', repr(asked)); c.reach('not asked')
def same_list(it, l):
    return isinstance(l, Rope) and len(l.segs) == 1 and isinstance(l.segs[0][1], Chans) and it.c.quick(s_and(s_eq(l.segs[0][2], 0), s_eq(l.segs[0][3], it.c.extra['n'])))
@unit('C45', 'maintenance runs every ten seconds', reach=['ran', 'not yet'], contracts=NODE)
def u4(it):
    c = it.c; node, n = world(it); now, last = c.fresh('now', 0), c.fresh('last', 0); c.assume(s_le(last, now)); c.extra['clock'] = lambda it: now; ran = []; order = []
    at = beat_attr(); node.__dict__[at] = last
    it.contracts[BN.BaseNode.heartbeat] = lambda it, a, kw: ran.append(1); it.contracts[BN.BaseNode.begin_loop] = lambda it, a, kw: order.append(1)
    r = it.call(BN.BaseNode.items, [node]); c.oblige_by('the channels of the map', isinstance(r, Opaque) and r.key == ('map', 'items'), 'path', repr(r)); c.oblige_by('the hook of the event loop', order == [1], 'path')
    if c.decide(s_lt(10, s_add(now, s_mul(-1, last)))): c.oblige_by('once', ran == [1], 'path', repr(ran)); oblige_eq(it, 'its time is remembered', node.__dict__[at], now); c.reach('ran')
    else: c.oblige_by('not before ten seconds have passed', ran == [], 'path'); oblige_eq(it, 'the last time is kept', node.__dict__[at], last); c.reach('not yet')
def beat_attr():
    import time as T
    old = T.time; T.time = lambda: 123456789.25
    try:
        nd = new_node(); b = dict(nd.__dict__); T.time = lambda: 223456789.25; nd.heartbeat = lambda: None; nd.items(); l = [k for k, v in nd.__dict__.items() if v == 223456789.25 and b.get(k) != v]
    finally: T.time = old
    if len(l) != 1: raise Unsupported('the field that holds the time of the last maintenance')
    return l[0]
def left(it, g, pos):
    return [(a, b) for a, b in seen(it, g, pos)] + [('nobody was closed', not it.c.extra['shut'])]
LEAVE = LoopSpec('looking for the peer', [], left)
@unit('C45', 'removing a peer', loops=[LEAVE], comp_rule=comp_rule, reach=['closed', 'unknown'], contracts=NODE, max_paths=20000)
def u5(it):
    c = it.c; node, n = world(it, True); a = c.extra['target'] = Addr(('removed',)); shut = c.extra['shut'] = []
    def close(it, i, x, kw): shut.append(i)
    c.extra['handle_close'] = close; it.call(BN.BaseNode.remove_peer, [node, a])
    if c.decide(s_eq(in_use(it, a), 1)):
        if c.oblige_by('one peer is closed', len(shut) == 1, 'path', repr(shut)): c.oblige('one with the address', ChanAddr(shut[0]).s_eq(it, a))
        c.reach('closed')
    else: c.oblige_by('nobody is closed', not shut, 'path', repr(shut)); c.reach('unknown')
@unit('C45', 'a closed connection leaves the address book', reach=['end'], contracts={k: v for k, v in NODE.items() if k is not BN.BaseNode.disconnected})
def u6(it):
    c = it.c; node, o = connection(it); N = c.choose(2); me, other, third = o.address, ('10.1.2.3', 1), ('9.9.9.9', 4567); B = {other: (1, 2), third: (3, None)}
    for k in (other, third): c.assume(s_not(it.eqb(me, k)))
    if N: B[me] = (Opaque(('time',)), Opaque(('services',)))
    node.__dict__[book_attr()] = B; it.note_alloc(B); want = {k: v for k, v in B.items() if k is not me}; it.call(C.Connection.handle_close, [o])
    got = node.__dict__[book_attr()]; c.oblige_by('its address is gone, the others stay', isinstance(got, dict) and {getattr(k, 'k', k): v for k, v in got.items()} == want, 'path', repr(got)); c.oblige_by('closed', c.extra.get('closed') == 1, 'path')
@unit('C45', 'connections are compared', reach=['end'])
def u7(it):
    c = it.c; node, o = connection(it); _, p = connection(it, node)
    for x, y in ((o, o), (o, p), (p, o), (o, None), (o, 5)):
        r = it.compare('Eq', x, y) if not (hasattr(C.Connection, '__eq__') and '__eq__' in C.Connection.__dict__) else it.call(C.Connection.__dict__['__eq__'], [x, y])
        c.oblige_by('equal exactly when the same', it.truth(r) is (x is y) if r is not NotImplemented else x is not y, 'path', repr(r))
