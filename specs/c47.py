"""C47: the channel table of a node is a mapping of its channels

Any number of channels; of a key it is only known whether it is in the table."""
from .node import *
from .c45 import chan_attr
from pyvc.interp import SIter
class Key(Opaque):
    def s_eq(self, it, o): return self is o
class Channel(Opaque):
    '''a channel may count as true or false'''
    def s_truth(self, it): return it.c.choose(2) == 0
class Met(Opaque):
    '''a key or value met while going through the table'''
    def s_eq(self, it, o): return isinstance(o, Met) and s_and(self.key[0] == o.key[0], s_eq(self.key[1], o.key[1]))
class Keys(Base):
    elem_lo = elem_hi = None
    def __init__(self, what, n, table): self.what, self.n, self.name, self._key, self.table = what, n, what, ('table', what), table
    def elem(self, i): return Met((self.what, i))
    def member(self, it, x):
        if self.what != 'keys': raise Unsupported('membership in ' + self.what)
        return self.table.has(it, x)
    def all(self): return norm('l', [('A', self, 0, self.n)])
class Table(SObj):
    """the table: looked up and changed only through what a dictionary offers"""
    def __init__(self, n, key, value): self.n, self.key, self.value, self.log = n, key, value, []; self.views = {w: Keys(w, n, self).all() for w in ('keys', 'values', 'items')}
    def s_len(self, it): return self.n
    def s_truth(self, it): return it.truth(s_lt(0, self.n))
    def s_iter(self, it): return SIter(self.n, lambda i: Met(('keys', i)), ('rope', self.views['keys']))
    def has(self, it, k):
        it.c.oblige_by('asked for the key', k is self.key, 'path', repr(k)); return self.value is not None
    def s_contains(self, it, k): return self.has(it, k)
    def s_getitem(self, it, k):
        if isinstance(k, Met) and k.key[0] == 'keys': return Met(('values', k.key[1]))    # a key met while going through them
        if not self.has(it, k): raise ProgExc(KeyError('key'))
        return self.value
    def keys_or(self, w): return self.views[w].segs[0][1]
    def s_setitem(self, it, k, v): self.log.append(('set', k, v))
    def s_delitem(self, it, k):
        if not self.has(it, k): raise ProgExc(KeyError('key'))
        self.log.append(('del', k))
    def s_getattr(self, it, a):
        if a in self.views: return Fn(lambda it, x, kw: self.views[a])
        if a == 'setdefault': return Fn(lambda it, x, kw: self.keep(it, *x))
        if a in ('get', 'pop'): return Fn(lambda it, x, kw: self.take(it, a, *x))
        if a in ('__getitem__', '__setitem__', '__delitem__', '__contains__'): return Fn(lambda it, x, kw: getattr(self, 's_' + a.strip('_'))(it, *x))
        if a == 'update': return Fn(lambda it, x, kw: [self.s_setitem(it, k, v) for k, v in x[0].items()] and None)
        if a == '__len__': return Fn(lambda it, x, kw: self.n)
        if a == '__iter__': return Fn(lambda it, x, kw: it.call(iter, [self]))
        raise Unsupported('method %s of the table' % a)
    def keep(self, it, k, d=None):
        if self.has(it, k): return self.value
        self.log.append(('set', k, d)); return d
    def take(self, it, a, k, *d):
        if self.has(it, k):
            if a == 'pop': self.log.append(('del', k))
            return self.value
        if a == 'pop' and not d: raise ProgExc(KeyError('key'))
        return d[0] if d else None
def node(it, present=False):
    c = it.c; nd = new_node(); it.note_alloc(nd); n = c.fresh('n', 1 if present else 0); k = Key(('key',)); v = Channel(('value',)) if present else None
    t = Table(n, k, v); nd.__dict__[chan_attr()] = t; return nd, t, k
def attempt(it, f):
    try: return 'value', f()
    except ProgExc as e: return 'error', type(e.exc)
def method(name): return BN.BaseNode.__dict__[name]
for present in (0, 1):
    nm = 'an open' if present else 'no'
    @unit('C47', 'looking up %s channel' % nm, reach=['end'], contracts=NODE)
    def u1(it, present=present):
        c = it.c; nd, t, k = node(it, present); w = ('value', t.value) if present else ('error', KeyError); d = Channel(('default',))
        r = attempt(it, lambda: it.call(method('__getitem__'), [nd, k])); c.oblige_by('by subscript', r == w, 'path', repr(r))
        for x, kw, want in (([], {}, None), ([d], {}, d), ([], {'default': d}, d)):
            r = attempt(it, lambda: it.call(it.getattr(nd, 'get'), [k] + x, kw)); c.oblige_by('by get', r == ('value', t.value if present else want), 'path', repr(r))
        r = attempt(it, lambda: it.contains(nd, k)); r = (r[0], it.truth(r[1])) if r[0] == 'value' else r; c.oblige_by('by in', r == ('value', bool(present)), 'path', repr(r))
        c.oblige_by('nothing changes', t.log == [], 'path', repr(t.log))
    @unit('C47', 'taking %s channel out' % nm, reach=['end'], contracts=NODE)
    def u2(it, present=present):
        c = it.c; nd, t, k = node(it, present); r = attempt(it, lambda: it.call(method('__delitem__'), [nd, k]))
        c.oblige_by('taken out, or an error', r == (('value', None) if present else ('error', KeyError)), 'path', repr(r)); c.oblige_by('only that one', t.log == [('del', k)] * present, 'path', repr(t.log))
    @unit('C47', 'putting a channel in, %s channel before' % nm, reach=['end'], contracts=NODE)
    def u3(it, present=present):
        c = it.c; nd, t, k = node(it, present); v = Channel(('new',)); it.call(method('__setitem__'), [nd, k, v])
        log = [x for x in t.log if x != ('del', k)]; c.oblige_by('put in, and nothing else', len(log) == 1 and t.log[-1] == ('set', k, v), 'path', repr(t.log))
def first(w): return lambda it, p: Rope('l', [('A', it.c.extra['t'].keys_or(w), 0, p)]) if not same(p, 0) else Rope('l', [])
def key_and_value(it, src, seq, elem):
    '''[... for key in the table]'''
    i = it.c.fresh('i', 0, None, record=False); it.c.fact(s_lt(i, seq.n)); e = elem(i)
    if isinstance(e, Met) and same(e.key[1], i): return it.c.extra['t'].views[e.key[0]]
COLLECT = [LoopSpec('the %s so far' % w, [('out', Defined('l', first(w)))], lambda it, g, pos: []) for w in ('keys', 'values')]
@unit('C47', 'all the channels', reach=['end'], contracts=NODE, loops=COLLECT, comp_rule=key_and_value)
def u4(it):
    c = it.c; nd, t, k = node(it); c.extra['t'] = t
    c.oblige('how many', it.eqb(it.call(len, [nd]), t.n))
    for w in ('keys', 'values'):
        r = it.call(it.getattr(nd, w), []); c.oblige_by(w, same_seq(it, r, t.views[w]), 'path', repr(r))
    r = it.call(method('__iter__'), [nd]); c.oblige_by('one by one', same_seq(it, r, t.views['keys']), 'path', repr(r)); c.oblige_by('nothing changes', t.log == [], 'path')
def same_seq(it, r, w):
    if isinstance(r, SObj) and not isinstance(r, SIter) and hasattr(r, 's_iter'): r = r.s_iter(it)
    if isinstance(r, SIter):
        if r.key and r.key[0] == 'rope': r = r.key[1]
        else: return False
    if not (isinstance(r, Rope) and len(r.segs) <= 1 and all(g[0] == 'A' for g in r.segs)): return False
    return it.c.entails(s_eq(rlen(r), rlen(w))) and all(g[1] is w.segs[0][1] and same(g[2], 0) for g in r.segs)
