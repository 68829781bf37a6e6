"""Kinds of loop-carried values: how to make an arbitrary one and how to read one."""
from . import core
from .core import *
from .rope import *

class Int(object):
    def __init__(self, lo=None, hi=None): self.lo, self.hi = lo, hi
    def fresh(self, it, name): return it.c.fresh(name, self.lo, self.hi, record=False)
    def view(self, it, v):
        if not is_int(v) or isinstance(v, bool): return None
        return v
class Bool(object):
    def fresh(self, it, name): return it.c.fresh_bool(name)
    def view(self, it, v): return v if isinstance(v, (bool, SBool)) else None
class Seq(object):
    """arbitrary byte string / text / list of symbolic length"""
    def __init__(self, kind='b', lo=0, hi=255): self.kind, self.lo, self.hi = kind, lo, hi
    def fresh(self, it, name):
        n = it.c.fresh('len_' + name, 0, None, record=False)
        k = it.c.extra['fs'] = it.c.extra.get('fs', 0) + 1
        return whole(Sym('%s~%d' % (name, k), n, self.lo, self.hi), self.kind)
    def view(self, it, v): return v if kind_of(v) == self.kind else None
class PosV(object):
    __slots__ = ('val', 'len')
    def __init__(self, v, n): self.val, self.len = v, n
class PosSeq(object):
    """digits of a non-negative integer"""
    def __init__(self, radix, alpha=None, kind='b', le=False, single=None):
        self.single = single; self.radix, self.alpha, self.kind, self.le = radix, alpha, kind, le
    def fresh(self, it, name):
        v = it.c.fresh('val_' + name, 0, None, record=False)
        n = it.c.fresh('len_' + name, 0, None, record=False)
        it.c.fact(s_lt(v, POW(self.radix, n)))
        b = Pos(self.radix, self.alpha, v, n)
        if self.single: b = Single(b, self.single)
        return norm(self.kind, [('A', Rev(b) if self.le else b, 0, n)])
    def view(self, it, v):
        if kind_of(v) not in (self.kind,): return None
        if self.single:
            v = unsingle(v, self.single)
            if v is None: return None
        elif self.kind in 'lt' and self.alpha is None:       # every element must be a digit
            for g in segs_of(v):
                for e in (g[1] if g[0] == 'L' else (g[1],) if g[0] == 'R' else ()):
                    if not is_int(e) or not it.c.quick(s_and(s_le(0, e), s_lt(e, self.radix))): return None
        try: x = val(v, self.radix, self.alpha, self.le)
        except Unsupported: return None
        if x is None: return None
        return PosV(x, rlen(v))
class Any(object):
    """any value: opaque to the invariant"""
    def __init__(self, mk): self.mk = mk
    def fresh(self, it, name): return self.mk(it, name)
    def view(self, it, v): return v

class DefinedAny(object):
    """any value, None included, determined by the loop position: expected(it, pos)"""
    def __init__(self, expected): self.expected = expected
    def fresh_at(self, it, name, pos): return self.expected(it, pos)
    def view(self, it, v): return (v,)
    def check(self, it, v, pos): return it.eqb(v[0], self.expected(it, pos))
class Grown(object):
    """what the value was before the loop, followed by f(it, pos)"""
    def __init__(self, kind, f): self.kind, self.f, self.start = kind, f, None
    def at(self, it, pos): return rcat(norm(self.kind, segs_of(self.start)), norm(self.kind, segs_of(self.f(it, pos))))
    def fresh_at(self, it, name, pos): return self.at(it, pos)
    def view(self, it, v): return v if kind_of(v) == self.kind else None
    def check(self, it, v, pos):
        if isinstance(pos, int) and pos == 0: self.start = v; return True
        return it.eqb(v, self.at(it, pos))
class Defined(object):
    """value determined by the loop position: expected(it, pos)"""
    def __init__(self, kind, expected): self.kind, self.expected = kind, expected
    def fresh_at(self, it, name, pos): return self.expected(it, pos)
    def view(self, it, v):
        if self.kind == 'int': return v if is_int(v) else None
        return v if kind_of(v) == self.kind or self.kind is None else None
    def check(self, it, v, pos): return it.eqb(v, self.expected(it, pos))
class DefinedSeq(Defined):
    """bytes, a bytearray or a list, whichever it was before the loop"""
    def __init__(self, expected): Defined.__init__(self, None, expected); self.k = 'l'
    def fresh_at(self, it, name, pos):
        r = norm(self.k, segs_of(self.expected(it, pos)))
        return Rope('l', list(segs_of(r))) if self.k == 'l' else r
    def view(self, it, v): return v if kind_of(v) in ('l', 'b') else None
    def check(self, it, v, pos):
        if isinstance(pos, int) and pos == 0: self.k = kind_of(v)
        return s_and(kind_of(v) == self.k, it.eqb(v, norm(self.k, segs_of(self.expected(it, pos)))))
class Shifted(object):
    """a number: f(it, value before the loop, pos)"""
    def __init__(self, f): self.f, self.start = f, None
    def fresh_at(self, it, name, pos): return self.f(it, self.start, pos)
    def view(self, it, v): return v if is_int(v) and not isinstance(v, bool) else None
    def check(self, it, v, pos):
        if isinstance(pos, int) and pos == 0: self.start = v
        return s_eq(v, self.f(it, self.start, pos))
