"""C37: the guessed external address is one that most peers report.

Any number of peers, each reporting an address or none.  Numbers stand for the addresses; any of them may be any text.
cnt(a, i) is how many of the first i peers report a; the dictionary of counts is compared with it."""
from .node import *
class Addr(SObj):
    """a reported address: a text that is not empty"""
    _cls = str
    def __init__(self, x): self.x = x
    def __repr__(self): return 'address(%r)' % (self.x,)
    def ckey(self): return ('addr', self.x)
    def s_truth(self, it): return True
    def s_isinstance(self, it, t): return t in (str, object)
    def s_eq(self, it, o):
        if isinstance(o, Addr): return s_eq(self.x, o.x)
        if isinstance(o, str): return s_eq(self.x, number(it, o)) if o else False
        return False
def number(it, text):
    """the number of a constant"""
    x, new = it.c.atom2(('text', text), 'text')
    if new:
        it.c.fact(s_le(1, x)); l = it.c.memo.setdefault('texts', [])
        for y in l: it.c.fact(s_not(s_eq(x, y)))
        l.append(x)
    return x
def is_none(it, i):
    x, new = it.c.atom2(('none', i), 'none')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, 1)))
    return x
def ext(it, i):
    x, new = it.c.atom2(('ext', i), 'reported')
    if new: it.c.fact(s_le(1, x))
    return Addr(x)
def cnt(it, a, i):
    if not isinstance(a, Addr): raise Unsupported('counting what is no address')
    a = a.x
    if isinstance(i, int) and i == 0: return 0
    x, new = it.c.atom2(('cnt', a, i), 'cnt')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, i)))
    return x
def some(it, i):
    """1 when one of the first i peers reports an address"""
    if isinstance(i, int) and i == 0: return 0
    x, new = it.c.atom2(('some', i), 'some')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, 1)))
    return x
class Peer(Opaque):
    def __init__(self, i): Opaque.__init__(self, ('peer', i)); self.i = i
    def s_getattr(self, it, a):
        if a == 'external_ip': return None if it.c.decide(s_eq(is_none(it, self.i), 1)) else ext(it, self.i)
        raise Unsupported('attribute %s of a peer' % a)
class Peers(Base):
    elem_lo = elem_hi = None; name = 'peers'; _key = ('peers',)
    def __init__(self, n): self.n = n
    def elem(self, i): return Peer(i)
class Count(SObj):
    """the counts after pos peers, and what was written since"""
    s_logs = True
    def __init__(self, pos, zero=False): self.pos, self.over, self.zero = pos, [], zero
    def find(self, it, k):
        for a, v in reversed(self.over):
            if it.c.decide(it.eqb(a, k)): return v
        n = cnt(it, k, self.pos); return n if it.c.decide(s_lt(0, n)) else None
    def s_contains(self, it, k): return self.find(it, k) is not None
    def s_getitem(self, it, k):
        v = self.find(it, k)
        if v is None and self.zero: self.s_setitem(it, k, 0); return 0
        if v is None: raise ProgExc(KeyError(k))
        return v
    def s_setitem(self, it, k, v): self.over = self.over + [(k, v)]
    def s_truth(self, it): return bool(self.over) or it.c.decide(s_eq(some(it, self.pos), 1))
    def s_len(self, it): n = it.c.fresh('n_counts', 0, record=False); it.c.assume(s_iff(s_lt(0, n), s_eq(some(it, self.pos), 1))); return n
    def s_iter(self, it):
        if self.over: raise Unsupported('unsettled counts')
        K = it.c.fresh('n_keys', 0, record=False); it.c.assume(s_iff(s_lt(0, K), s_eq(some(it, self.pos), 1))); return SIter(K, lambda i: key(it, i, self), ('keys', self))
    def s_getattr(self, it, a):
        if a == 'get': return Fn(lambda it, x, kw: (lambda v: v if v is not None else x[1] if len(x) > 1 else None)(self.find(it, x[0])))
        if a == 'setdefault':
            def f(it, x, kw):
                v = self.find(it, x[0])
                if v is None: v = x[1]; self.s_setitem(it, x[0], v)
                return v
            return Fn(f)
        if a == 'keys': return Fn(lambda it, x, kw: self)
        if a == 'items': return Fn(lambda it, x, kw: Items(self))
        raise Unsupported('method %s of the counts' % a)
    def s_max(self, it, kw):
        f = kw.get('key'); k = key(it, it.c.fresh('any', 0, record=False), self)
        v = it.call(f, [k]) if f is not None else None
        if isinstance(v, tuple) and v: v = v[0]
        if v is None or not it.truth(it.eqb(v, cnt(it, k, self.pos))): raise Unsupported('maximum by something else')
        return winner(it, self)
class Items(SObj):
    def __init__(self, m): self.m = m
    def s_iter(self, it): s = self.m.s_iter(it); return SIter(s.n, lambda i: (s.elem(i), self.m.s_getitem(it, s.elem(i))), ('keys', self.m))
    def s_max(self, it, kw):
        w = winner(it, self.m); return (w, cnt(it, w, self.m.pos))
def key(it, i, m):
    """the i-th key of the counts: one that was reported"""
    x, new = it.c.atom2(('key', i), 'key')
    if new: it.c.fact(s_le(1, x)); it.c.fact(s_le(1, cnt(it, Addr(x), m.pos)))
    return Addr(x)
def winner(it, m):
    c = it.c
    if m.over or not c.quick(s_eq(m.pos, c.extra['n'])): raise Unsupported('counts of some of the peers')
    c.trust('the built-in sort and max give an element with the largest key')
    x, new = c.atom2(('winner',), 'winner'); w = Addr(x)
    c.fact(s_eq(cnt(it, w, m.pos), cnt(it, w, c.extra['n'])))         # the same number of peers
    if new:
        n = c.extra['n']; c.fact(s_le(1, cnt(it, w, n))); c.fact(s_le(1, x))
        a = ext(it, c.extra['p']); c.fact(s_le(cnt(it, a, n), cnt(it, w, n)))       # at the peer the property is asked for
    return w
class Pairs(SObj):
    """the pairs (count, address) of all keys"""
    s_logs = True
    def __init__(self, m): self.m, self.order = m, None
    def s_getattr(self, it, a):
        if a == 'sort':
            def f(it, x, kw):
                if kw.get('key') is not None: raise Unsupported('sorting by a key')
                self.order = 'down' if kw.get('reverse') else 'up'
            return Fn(f)
        raise Unsupported('method %s of the list of counts' % a)
    def s_sorted(self, it, kw): p = Pairs(self.m); it.call(p.s_getattr(it, 'sort'), [], kw); return p
    def s_max(self, it, kw): w = winner(it, self.m); return (cnt(it, w, self.m.pos), w)
    def s_truth(self, it): return self.m.s_truth(it)
    def s_getitem(self, it, i):
        if (self.order, i) not in (('up', -1), ('down', 0)): raise Unsupported('another element of the sorted counts')
        return self.s_max(it, {})
def comp_rule(it, src, seq, elem):
    if seq.key[0] != 'keys': return None
    i = it.c.fresh('any', 0, record=False); e = elem(i); m = seq.key[1]
    if isinstance(e, tuple) and len(e) == 2 and it.c.quick(s_and(s_eq(e[0], cnt(it, key(it, i, m), m.pos)), it.eqb(e[1], key(it, i, m)))): return Pairs(m)
    return None
class Counts(object):
    def __init__(self, zero): self.zero = zero
    def fresh_at(self, it, name, pos): return Count(pos, self.zero)
    def view(self, it, v): return Count(0, self.zero) if not isinstance(v, Count) and isinstance(v, dict) and not v and (getattr(v, 'default_factory', None) is int) is self.zero else v if isinstance(v, Count) and v.zero is self.zero else None
    def check(self, it, v, pos):
        c = it.c
        p = v.pos
        if same(p, pos): return not v.over
        if not c.quick(s_eq(pos, s_add(p, 1))): return False
        if c.decide(s_eq(is_none(it, p), 1)): return not v.over
        if not v.over: return False
        return s_and(*[it.eqb(a, ext(it, p)) for a, x in v.over] + [s_eq(v.over[-1][1], s_add(cnt(it, ext(it, p), p), 1))])
def at_exit(it, g, pos):
    c = it.c; n = c.extra['n']; c.fact(s_eq(some(it, pos), some(it, n))); c.fact(s_eq(pos, n))
LOOP = [LoopSpec('peers counted', [('count', Counts(z))], lambda it, g, pos: [], at_exit=at_exit) for z in (False, True)]
@unit('C37', 'the guess after any number of reports', loops=LOOP, comp_rule=comp_rule, reach=['guessed', 'kept', 'loop peers counted body'], contracts=NODE)
def u1(it):
    c = it.c; node = new_node(); it.note_alloc(node); n = c.fresh('n_peers', 0); p = c.fresh('p', 0); c.extra.update(n=n, p=p)
    def k_peers(it, a, kw): c.trust('peers are the connections of the map (unit of its own)'); return norm('l', [('A', Peers(n), 0, n)])
    it.contracts[BN.BaseNode.peers.fget] = k_peers
    old = Opaque(('previous guess',)); at = guess_attr(); node.__dict__[at] = old
    # any peer p: if it reports, some peer reports
    c.fact(s_implies(s_and(s_lt(p, n), s_eq(is_none(it, p), 0)), s_eq(some(it, n), 1)))
    it.call(BN.BaseNode.connected, [node, Opaque(('peer',))])
    g = node.__dict__[at]
    if c.decide(s_eq(some(it, n), 0)): c.oblige_by('without reports the guess is kept', g is old, 'path', repr(g)); c.reach('kept'); return
    if not c.oblige_by('a reported address', isinstance(g, Addr), 'path', repr(g)): return
    c.oblige('reported by a peer', s_le(1, cnt(it, g, n)))
    c.assume(s_lt(p, n)); c.assume(s_eq(is_none(it, p), 0))
    c.oblige('no address is reported by more peers', s_le(cnt(it, ext(it, p), n), cnt(it, g, n))); c.reach('guessed')
def guess_attr():
    nd = new_node(); p = C.Connection(node=nd, address=('10.1.2.4', 4568), sock=Sock()); b = dict(nd.__dict__)
    p._external_ip = '99.9.9.9'; nd.connected(p)
    l = [k for k, v in nd.__dict__.items() if v == '99.9.9.9' and b.get(k) != v]
    if len(l) != 1: raise Unsupported('the field that holds the guess')
    return l[0]
@unit('C37', 'the peers are the connections', reach=['end'])
def u2(it):
    c = it.c; nd = new_node(); ps = [C.Connection(node=nd, address=('10.1.2.%d' % i, 5), sock=Sock()) for i in range(3)]
    c.oblige_by('all of them, nothing else', sorted(map(id, nd.peers)) == sorted(map(id, ps)), 'evaluation'); ps[1].handle_close()
    c.oblige_by('without closed ones', sorted(map(id, nd.peers)) == sorted(map(id, ps[::2])), 'evaluation')
@unit('C37', 'an address set explicitly takes precedence', reach=['end'], contracts=NODE)
def u3(it):
    c = it.c; node = new_node(); it.note_alloc(node); g, e = Opaque(('guess',)), Opaque(('explicit',)); node.__dict__[guess_attr()] = g
    oblige_eq(it, 'the guess when nothing is set', it.getattr(node, 'external_ip'), g)
    it.setattr(node, 'external_ip', e); oblige_eq(it, 'the explicit address', it.getattr(node, 'external_ip'), e)
    node.__dict__[guess_attr()] = Opaque(('another',)); oblige_eq(it, 'whatever the guess', it.getattr(node, 'external_ip'), e)
    it.setattr(node, 'external_ip', None); oblige_eq(it, 'the guess again', it.getattr(node, 'external_ip'), Opaque(('another',)))
