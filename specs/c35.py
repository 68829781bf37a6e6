"""C35: the address book.

The book is an abstract dictionary of any size with any content; what is proved of one call holds after every history."""
from .node import *
MAXA, ASK = 2500, 1000
class Rec(Opaque):
    """a record with named fields"""
    def __init__(self, what, i): Opaque.__init__(self, (what, i)); self.what, self.i = what, i
    def s_getattr(self, it, a):
        if a in ('address', 'port', 'timestamp', 'services', 'ip'): return Opaque((self.what, 'address' if a == 'ip' else a, self.i))
        raise Unsupported('attribute %s of an address' % a)
class Book(SObj):
    """dictionary of n entries; records are checked when they are added"""
    s_logs = True
    def __init__(self, n): self.n = n; self.count = 0
    def s_len(self, it): return self.n
    def s_truth(self, it): return it.truth(s_lt(0, self.n))
    def s_getattr(self, it, a):
        if a in ('n', 'count'): return getattr(self, a)
        if a in ('keys',): return Fn(lambda it, x, kw: self)
        if a == 'items': return Fn(lambda it, x, kw: Items(self))
        if a == 'get': return Fn(lambda it, x, kw: self.s_getitem(it, x[0]))
        raise Unsupported('method %s of the address book' % a)
    def s_setattr(self, it, a, v): it.log_write(self, a); setattr(self, a, v)
    def s_contains(self, it, k):
        return it.c.decide(s_eq(self.present(it, k), 1))
    def present(self, it, k):
        x, new = it.c.atom2(('known', self.count, self.n, k), 'known')
        if new: it.c.fact(s_and(s_le(0, x), s_le(x, 1), s_le(x, self.n)))
        return x
    def s_setitem(self, it, k, v):
        c = it.c; c.extra['record'](it, self, k, v)
        p = self.present(it, k)
        self.s_setattr(it, 'n', s_add(self.n, s_add(1, -p))); self.s_setattr(it, 'count', s_add(self.count, 1))
    def s_sorted(self, it, kw):
        c = it.c; S = Ordered(self, c.fresh('n_keys', 0, record=False)); c.assume(s_eq(S.n, self.n))
        j = c.fresh('j', 0, None, record=False); k = S.elem(j); f = kw.get('key')
        if not c.oblige_by('most recently seen first', f is not None and kw.get('reverse') is True and it.truth(it.eqb(it.call(f, [k]), Opaque(('book', 'timestamp', j)))), 'path', repr(kw)): raise PathEnd()
        c.trust('the built-in sorted puts the items in the order of their keys')
        c.extra['order'] = S
        return norm('l', [('A', S, 0, S.n)])
    def s_getitem(self, it, k):
        l = it.to_list(k)
        if len(l) == 2 and all(isinstance(x, Opaque) and x.key[0] == 'book' for x in l) and l[0].key[1] == 'address' and l[1].key[1] == 'port' and same(l[0].key[2], l[1].key[2]):
            return value(it, l[0].key[2])
        raise Unsupported('another address')
def value(it, i): return (Opaque(('book', 'timestamp', i)), Services(i))
class Services(Opaque):
    """the recorded services of entry i: None when unknown"""
    def __init__(self, i): Opaque.__init__(self, ('book', 'services', i)); self.i = i
    def s_isnone(self, it): return it.c.decide(s_eq(unknown(it, self.i), 1))
    def s_truth(self, it): raise Unsupported('services taken as a truth value')
def unknown(it, i):
    x, new = it.c.atom2(('unknown', i), 'unknown')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, 1)))
    return x
class Ordered(Base):
    """the keys, most recent first"""
    elem_lo = elem_hi = None
    def __init__(self, book, n): self.book, self.n, self.name = book, n, 'order'; self._key = ('order', id(book))
    def elem(self, i): return (Opaque(('book', 'address', i)), Opaque(('book', 'port', i)))
class Kept(Base):
    """the records with known services among them, in that order"""
    elem_lo = elem_hi = None; name = 'kept'; _key = ('kept',)
    def __init__(self, n): self.n = n
    def elem(self, j): return Opaque(('kept', j))
def cnt(it, i):
    """how many of the first i have known services"""
    if isinstance(i, int) and i == 0: return 0
    x, new = it.c.atom2(('cnt', i), 'cnt')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, i)))
    return x
# ---- addresses received
def book_attr():
    nd = new_node(); p = C.Connection(node=nd, address=('10.1.2.4', 4568), sock=Sock())
    nd.command_address(p, [F.NetworkAddress(5, 1, '10.9.8.7', 99)])
    l = [k for k, v in nd.__dict__.items() if isinstance(v, dict) and ('10.9.8.7', 99) in v]
    if len(l) != 1: raise Unsupported('the field that holds the address book')
    return l[0]
def setup(it):
    c = it.c; node, o = connection(it); n = c.fresh('n_known', 0, MAXA); b = Book(n); node.__dict__[book_attr()] = b
    c.extra.update(book=b, loop_lvs=[(b, 'n'), (b, 'count')]); return node, o, b
def ainv(it, g, pos):
    return [('the book is bounded', s_and(s_le(0, g['n']), s_le(g['n'], MAXA))), ('every address while there was room', s_or(s_eq(g['count'], pos), s_eq(g['n'], MAXA))), ('one record each', s_le(g['count'], pos))]
ADDR = LoopSpec('addresses', [('n', Int(0)), ('count', Int(0))], ainv, hint=dict(n=('.n',), count=('.count',)), at_body=lambda it, g, pos: it.c.extra.update(pos=pos, added=0, full=s_eq(g['n'], MAXA)))
@unit('C35', 'a received address list', loops=[ADDR], reach=['end', 'loop addresses body'], contracts=NODE)
def u1(it):
    c = it.c; node, o, b = setup(it); m = c.fresh('n_addresses', 0)
    X = AList('received', m, cls=F.NetworkAddress, mkitem=lambda l, i: Rec('received', i))
    def record(it, book, k, v):
        c = it.c; i = c.extra.get('pos'); c.extra['added'] += 1
        if not c.oblige_by('one record for the address at hand', i is not None and c.extra['added'] == 1, 'path'): raise PathEnd()
        c.oblige('only while there is room', s_or(s_lt(book.n, MAXA), s_eq(book.present(it, k), 1)))
        oblige_eq(it, 'under its address and port', k, (Opaque(('received', 'address', i)), Opaque(('received', 'port', i))))
        oblige_eq(it, 'with its timestamp and services', v, (Opaque(('received', 'timestamp', i)), Opaque(('received', 'services', i))))
        c.oblige('in the order received', s_or(s_eq(book.count, i), c.extra['full']))
    c.extra['record'] = record
    it.call(BN.BaseNode.command_address, [node, o, X.value('tl'[c.choose(2)])])
    c.oblige('the book is bounded', s_le(b.n, MAXA)); c.oblige('every address was recorded, or there is no room left', s_or(s_eq(b.count, m), s_eq(b.n, MAXA)))
@unit('C35', 'a version acknowledgement', reach=['recorded', 'full'], contracts=NODE)
def u2(it):
    c = it.c; node, o, b = setup(it); n0 = b.n; ts, sv = Opaque(('ts',)), Opaque(('services',))
    it.contracts[C.Connection.timestamp.fget] = lambda it, a, kw: ts; it.contracts[C.Connection.services.fget] = lambda it, a, kw: sv
    def record(it, book, k, v):
        oblige_eq(it, 'under the address of the peer', k, it.getattr(o, 'address')); oblige_eq(it, 'with the time it was last heard from and its services', v, (ts, sv))
        c.oblige('only while there is room', s_or(s_lt(book.n, MAXA), s_eq(book.present(it, k), 1)))
    c.extra['record'] = record
    it.call(BN.BaseNode.command_version_ack, [node, o])
    c.oblige('the book is bounded', s_le(b.n, MAXA)); c.oblige('recorded when there is room', s_or(s_eq(b.count, 1), s_eq(n0, MAXA)))
    c.reach('recorded' if isinstance(b.count, int) and b.count == 1 else 'full')
@unit('C35', 'a new node knows no address', reach=['end'])
def u3(it): it.c.oblige_by('empty', len(new_node().__dict__[book_attr()]) == 0, 'evaluation')
# ---- addresses asked for
def ask_list(it, p): return norm('l', [('A', it.c.extra['kept'], 0, cnt(it, p))])
def body(it, g, pos):
    c = it.c; u = unknown(it, pos); c.fact(s_eq(cnt(it, s_add(pos, 1)), s_add(cnt(it, pos), s_add(1, -u)))); c.extra['pos'] = pos
ASKL = lambda lim, **k: LoopSpec('records', [('out', Defined('l', ask_list))], lambda it, g, pos: [('at most 1000', s_lt(cnt(it, pos), lim))], at_body=body, at_exit=lambda it, g, pos: it.c.fact(s_eq(cnt(it, pos), cnt(it, it.c.extra['book'].n))))
ASKL = [ASKL(ASK), ASKL(ASK + 1)]
@unit('C35', 'a request for addresses', loops=ASKL, reach=['end', 'loop records body'], contracts=NODE)
def u4(it):
    c = it.c; node, o, b = setup(it); sent = []
    total = c.fresh('n_known_services', 0, record=False); c.extra['kept'] = Kept(total)
    c.fact(s_eq(total, cnt(it, b.n)))
    c.extra['loop_lvs'] = []
    def record(it, *a): c.oblige_by('the book is not changed', False, 'path')
    c.extra['record'] = record
    def mk(it, a, kw):
        d = dict(zip([f for f, t in STRUCTS[F.NetworkAddress]], a)); d.update(kw); i = it.c.extra.get('pos'); c = it.c
        for f in ('timestamp', 'services', 'address', 'port'):
            oblige_eq(it, 'its own %s' % f, d.get(f), Opaque(('book', f, i)))
        c.oblige('its services are known', s_eq(unknown(it, i), 0))
        return Opaque(('kept', cnt(it, i)))
    it.contracts[F.NetworkAddress] = mk
    it.contracts[M.Address] = lambda it, a, kw: ('answer', a[0] if a else kw['addr_list'])
    it.contracts[C.Connection.send_message] = lambda it, a, kw: sent.append((a[0], a[1]))
    it.call(BN.BaseNode.command_get_address, [node, o])
    if not c.oblige_by('one answer', len(sent) == 1 and sent[0][0] is o and sent[0][1][0] == 'answer', 'path', repr(sent)): return
    got = sent[0][1][1]; k = rlen(got)
    c.oblige('as many as there are, at most 1000', s_or(s_eq(k, ASK), s_and(s_eq(k, total), s_le(k, ASK))))
    oblige_eq(it, 'the most recently seen with known services', norm('l', segs_of(got)), norm('l', [('A', c.extra['kept'], 0, k)]))
