"""Abstract lists of symbolic length whose elements have an encoding as bytes.

AList X: n elements item(i); enc(X) = concatenation of the encodings; PL(i) is the length of the first i encodings,
so the encoding of item i is the slice [PL(i), PL(i+1)) of enc(X).  These are the facts a caller may use; that an
element's own encoder and decoder satisfy them is proved where that element type is under contract."""
from . import core
from .core import *
from .rope import *
from .interp import SObj, Opaque, SIter

class Fn(SObj):
    """a specified callable"""
    def __init__(self, f): self.f = f
    def s_call(self, it, args, kw): return self.f(it, args, kw)
    def s_getattr(self, it, a): raise Unsupported('attribute of a specified function')
class AObj(SObj):
    def __init__(self, **kw): self.__dict__.update(kw)
    def s_getattr(self, it, a):
        if a in self.__dict__: return self.__dict__[a]
        raise Unsupported('attribute %s of an abstract object' % a)
class Item(Opaque):
    def __init__(self, lst, i, cls): Opaque.__init__(self, ('item', lst.name, i), cls); self.lst, self.i = lst, i
    def s_getattr(self, it, a):
        if a == 'binary': return Fn(lambda it, x, kw: self.lst.encoding(self.i))
        raise Unsupported('attribute %s of a list element' % a)
    def s_isinstance(self, it, t): return isinstance(self._cls, type) and issubclass(self._cls, t)
    def s_truth(self, it): return True
class ItemBase(Base):
    elem_lo = elem_hi = None
    def __init__(self, lst): self.lst, self.n, self.name = lst, lst.n, lst.name; self._key = ('items', lst.name)
    def elem(self, i): return self.lst.item(i)
    def __repr__(self): return 'items(%s)' % self.name
class AList(object):
    """width: bytes per element (int), or None for variable; mkitem(lst, i) -> element"""
    def __init__(self, name, n, width=None, mkitem=None, cls=object, kind='l', minw=1):
        self.name, self.n, self.width, self.mkitem, self.cls, self.kind, self.minw = name, n, width, mkitem, cls, kind, minw
        self.items = ItemBase(self)
        self.total = self.PL(n)
        self.enc = Sym('enc_' + name, self.total)
        core.CUR.memo.setdefault('alists', {})[self.enc] = self
        core.CUR.memo.setdefault('alistn', {})[name] = self
    def PL(self, i):
        if self.width is not None: return s_mul(self.width, i)
        if isinstance(i, int) and i == 0: return 0
        c = core.CUR
        a, new = c.atom2(('PL', self.name, i), 'PL_%s_' % self.name)
        if new:
            c.fact(s_le(0, a))
            for j, b in c.memo.setdefault(('PLs', self.name), []) + [(0, 0)]:
                for (x, px), (y, py) in (((i, a), (j, b)), ((j, b), (i, a))):
                    c.fact(s_implies(s_le(x, y), s_le(s_add(px, s_mul(self.minw, s_add(y, -x))), py)))
            c.memo[('PLs', self.name)].append((i, a))
        return a
    def EL(self, i): return self.width if self.width is not None else s_add(self.PL(s_add(i, 1)), -self.PL(i))
    def item(self, i): return self.mkitem(self, i) if self.mkitem else Item(self, i, self.cls)
    def encoding(self, i): return norm('b', [('A', self.enc, self.PL(i), self.EL(i))])
    def value(self, kind=None): return norm(kind or self.kind, [('A', self.items, 0, self.n)])
    def upto(self, i, kind='l'): return norm(kind, [('A', self.items, 0, i)])
    def body(self): return whole(self.enc)
    def index_of(self, data):
        """i when data starts with the encoding of item i (0 <= i < n known), else None"""
        s = segs_of(data)
        if not s or s[0][0] != 'A' or s[0][1] != self.enc: return None
        st = s[0][2]; i = None; c = core.CUR
        if isinstance(st, int) and st == 0: i = 0
        elif self.width is not None:
            q, r = s_divmod(st, self.width)
            if isinstance(r, int) and r == 0: i = q
        else:
            for j, b in c.memo.get(('PLs', self.name), []):
                if same(b, st) or c.quick(s_eq(b, st)): i = j; break
        if i is None: return None
        if not c.quick(s_and(s_le(0, i), s_lt(i, self.n))): return None
        return i
def find_item(data):
    """(list, index) when data starts with an encoded element of an abstract list"""
    s = segs_of(data)
    if s and s[0][0] == 'A':
        l = core.CUR.memo.get('alists', {}).get(s[0][1])
        if l is not None:
            i = l.index_of(data)
            if i is not None: return l, i
    return None
def join_rule(it, sep, xs):
    """joining the encodings of the items of an abstract list, in order, gives its encoding"""
    if len(sep): return None
    c = core.CUR
    src = xs
    i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, xs.n))
    e = xs.elem(i)
    s = segs_of(e)
    if len(s) == 1 and s[0][0] == 'A':
        l = c.memo.get('alists', {}).get(s[0][1])
        if l is not None and c.quick(s_and(s_eq(xs.n, l.n), s_eq(s[0][2], l.PL(i)), s_eq(s[0][3], l.EL(i)))): return l.body()
    return None
def sum_rule(it, xs):
    """the sum of the lengths of the encodings of all items of an abstract list"""
    c = core.CUR; i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, xs.n)); e = xs.elem(i)
    if not is_int(e): return None
    for l in c.memo.get('alists', {}).values():
        if c.quick(s_and(s_eq(xs.n, l.n), s_eq(e, l.EL(i)))): return l.total
    return None
class EncBase(Base):
    """the list of the encodings of the items"""
    elem_lo = elem_hi = None
    def __init__(self, lst): self.lst, self.n, self.name = lst, lst.n, 'enc ' + lst.name; self._key = ('encs', lst.name)
    def elem(self, i): return self.lst.encoding(i)
def enc_comp(it, src, seq, elem):
    """[encoding of x for x in the items of an abstract list] (the items may follow others)"""
    c = core.CUR
    if not (isinstance(src, Rope) and src.kind in 'lt'): return None
    at = 0; out = []
    for g in src.segs:
        n = seglen(g)
        if g[0] == 'L': out += [('L', (elem(s_add(at, j)),)) for j in range(len(g[1]))]
        elif g[0] == 'A' and isinstance(g[1], ItemBase):
            if c.decide(s_lt(0, n)):
                i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, n)); e = elem(s_add(at, i))
                if kind_of(e) != 'b' or not c.quick(it.eqb(e, g[1].lst.encoding(s_add(g[2], i)))): return None
                out.append(('A', EncBase(g[1].lst), g[2], n))
        else: return None
        at = s_add(at, n)
    return norm('l', out)
