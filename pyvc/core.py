"""pyvc core: symbolic integers (polynomials over atoms), booleans, path contexts.

Python ints are unbounded, so mathematical integers are exact here.  A symbolic
integer is a polynomial with integer coefficients over *atoms* (input variables,
quotients, positional values, powers ...).  z3 sees every monomial of degree > 1
as an opaque constant, so every query is linear integer arithmetic; non-linear
reasoning is done by the polynomial prover (poly.py) or by explicit lemmas.
"""
import math, time, z3

class Unsupported(BaseException):
    """construct outside the verified subset: the obligation stays undischarged"""
class PathEnd(BaseException):
    """this path is finished (infeasible, or a loop-body path after its check)"""
class ProgExc(BaseException):
    """an exception raised by the verified program"""
    def __init__(self, exc): self.exc = exc
    def __str__(self): return 'ProgExc(%r)' % (self.exc,)

CUR = None          # current Ctx
def ctx(): return CUR

# ------------------------------------------------------------------ SInt
class SInt(object):
    __slots__ = ('t', '_h', '_z', '_v')
    def __init__(self, t):
        self.t = t; self._h = None; self._z = None; self._v = 0
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def key(self): return ('P',) + tuple(sorted(self.t.items()))
    def same(self, o): return isinstance(o, SInt) and self.t == o.t
    def __eq__(self, o): return s_eq(self, o)
    def __ne__(self, o): return s_not(s_eq(self, o))
    def __add__(self, o): return s_add(self, o)
    __radd__ = __add__
    def __neg__(self): return mk({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return s_add(self, -o)
    def __rsub__(self, o): return s_add(-self, o)
    def __mul__(self, o): return s_mul(self, o)
    __rmul__ = __mul__
    def __floordiv__(self, o): return s_divmod(self, o)[0]
    def __mod__(self, o): return s_divmod(self, o)[1]
    def __rfloordiv__(self, o): return s_divmod(o, self)[0]
    def __rmod__(self, o): return s_divmod(o, self)[1]
    def __lt__(self, o): return s_cmp('<', self, o)
    def __le__(self, o): return s_cmp('<=', self, o)
    def __gt__(self, o): return s_cmp('<', o, self)
    def __ge__(self, o): return s_cmp('<=', o, self)
    def __bool__(self): raise Unsupported('truth of symbolic int leaked: %s' % self)
    def __repr__(self): return 'S<%s>' % show(self)

def show(p):
    if not isinstance(p, SInt): return repr(p)
    c = CUR; out = []
    for m, k in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        names = '*'.join(c.atoms[a].name if c and a < len(c.atoms) else 'a%d' % a for a in m)
        kk = str(k) if abs(k) < 10**12 else hex(k)
        out.append(names if k == 1 and m else kk if not m else '%s*%s' % (kk, names))
    return ' + '.join(out)

def mk(t):
    t = {m: c for m, c in t.items() if c}
    if not t: return 0
    if len(t) == 1 and () in t: return t[()]
    return SInt(t)
def terms(x): return x.t if isinstance(x, SInt) else ({(): int(x)} if x else {})
def is_int(x): return isinstance(x, (int, SInt))
def s_add(a, b):
    if not is_int(b) or not is_int(a): return NotImplemented
    t = dict(terms(a))
    for m, c in terms(b).items(): t[m] = t.get(m, 0) + c
    return mk(t)
def s_mul(a, b):
    if not is_int(b) or not is_int(a): return NotImplemented
    t = {}
    tb = terms(b).items()
    for m, c in terms(a).items():
        for n, d in tb:
            k = tuple(sorted(m + n)) if m and n else (m or n)
            t[k] = t.get(k, 0) + c * d
    return mk(t)
def s_pow(a, n):
    r = 1
    for _ in range(n): r = s_mul(r, a)
    return r

# ------------------------------------------------------------------ SBool
class SBool(object):
    __slots__ = ('e', 'eqp')
    def __init__(self, e): self.e = e; self.eqp = None
    def __repr__(self): return 'SBool(%s)' % self.e
    def __bool__(self): raise Unsupported('truth of symbolic bool leaked')
def mkb(e):
    if isinstance(e, bool): return e
    e2 = e
    if z3.is_true(e2): return True
    if z3.is_false(e2): return False
    return SBool(e2)
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b.e
def s_not(b):
    if isinstance(b, bool): return not b
    if b is NotImplemented: return b
    return mkb(z3.Not(b.e))
def s_and(*bs):
    out = []
    for b in bs:
        if b is False: return False
        if b is True: continue
        out.append(b.e)
    if not out: return True
    return mkb(out[0] if len(out) == 1 else z3.And(*out))
def s_or(*bs):
    out = []
    for b in bs:
        if b is True: return True
        if b is False: continue
        out.append(b.e)
    if not out: return False
    return mkb(out[0] if len(out) == 1 else z3.Or(*out))
def s_implies(a, b): return s_or(s_not(a), b)
def s_iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    return mkb(zb(a) == zb(b))
def s_eq(a, b):
    if not is_int(b) or not is_int(a): return False if not isinstance(b, float) else NotImplemented
    d = s_add(a, -b)
    if isinstance(d, int): return d == 0
    r = mkb(zi(a) == zi(b))
    if isinstance(r, SBool): r.eqp = (a, b)
    return r
def s_cmp(op, a, b):
    if not is_int(b) or not is_int(a): return NotImplemented
    d = s_add(a, -b)
    if isinstance(d, int): return d < 0 if op == '<' else d <= 0
    return mkb(zi(a) < zi(b) if op == '<' else zi(a) <= zi(b))
def s_ne(a, b): return s_not(s_eq(a, b))
def s_lt(a, b): return s_cmp('<', a, b)
def s_le(a, b): return s_cmp('<=', a, b)

def zi(x):
    """polynomial -> linear z3 term"""
    if not isinstance(x, SInt): return z3.IntVal(int(x))
    if x._z is None or x._v != CUR.substv:
        parts = []
        y = CUR.norm(x)
        if not isinstance(y, SInt): return z3.IntVal(y)
        for m, c in y.t.items():
            if not m: parts.append(z3.IntVal(c)); continue
            v = CUR.mono(m)
            parts.append(v if c == 1 else z3.IntVal(c) * v)
        x._z = parts[0] if len(parts) == 1 else z3.Sum(parts); x._v = CUR.substv
    return x._z

# ------------------------------------------------------------------ division
def _minus(k, x): k = list(k); k.remove(x); return k
def s_divmod(a, m):
    if not is_int(a) or not is_int(m): return (NotImplemented, NotImplemented)
    if isinstance(a, int) and isinstance(m, int):
        if m == 0: raise ProgExc(ZeroDivisionError('integer division or modulo by zero'))
        return divmod(a, m)
    c = CUR
    if c.subst:
        a, m = c.norm(a), c.norm(m)
        if isinstance(a, int) and isinstance(m, int): return s_divmod(a, m)
    if isinstance(m, int):
        if m == 0: raise ProgExc(ZeroDivisionError('integer division or modulo by zero'))
        if m < 0:
            q, r = s_divmod(-a, -m); return q, -r
        if m == 1: return a, 0
        if m & (m - 1) == 0 and isinstance(a, SInt) and len(a.t) == 1:      # a power of two by a power of two
            j, t = log2_of(a), m.bit_length() - 1
            if j is not None and not isinstance(j, int):
                if c.quick(s_le(t, j)) or (t == 1 and c.quick(s_le(0, j)) and c.decide(s_le(t, j))): return POW(2, s_add(j, -t)), 0
        t1, t2 = {}, {}
        for k, v in terms(a).items():
            qq, rr = divmod(v, m)
            # keep small negative remainders small (e.g. -1 instead of m-1) for readability of facts
            if qq: t1[k] = qq
            if rr: t2[k] = rr
        a1, a2 = mk(t1), mk(t2)
        if isinstance(a2, int): return a1, a2
        if c.quick(s_and(s_le(0, a2), s_lt(a2, m))): return a1, a2
        # the unsplit value may already be in range (e.g. x - y with coefficient -1)
        if not (isinstance(a1, int) and a1 == 0) and c.quick(s_and(s_le(0, a), s_lt(a, m))): return 0, a
        # (b // k) // m  ==  b // (k*m)
        if len(a2.t) == 1:
            (mono, co), = a2.t.items()
            if co == 1 and len(mono) == 1:
                info = c.atoms[mono[0]].key
                if info[0] == 'div' and isinstance(info[2], int):
                    q = s_divmod(info[1], info[2] * m)[0]
                    return s_add(a1, q), s_add(a2, -s_mul(q, m))
        deg = max(len(k) for k in a2.t)
        if deg <= 1:
            q, new = c.atom2(('div', a2, m), 'div')
            r = s_add(a2, -s_mul(q, m))
            if new:
                c.fact(s_le(0, r)); c.fact(s_lt(r, m))
                c.quotients.append((a2, m, q))
            return s_add(a1, q), r
        a = a2
    else:
        a1 = 0
        if not c.decide(s_lt(0, m)):
            if c.decide(s_eq(m, 0)): raise ProgExc(ZeroDivisionError('integer division or modulo by zero'))
            raise Unsupported('division by possibly negative symbolic value')
        if c.quick(s_and(s_le(0, a), s_lt(a, m))): return 0, a
        if max((len(k) for k in terms(a)), default=0) <= 1:
            # within one multiple of the modulus on either side: written out, case by case
            for lo in (0, -1):
                if c.quick(s_and(s_le(s_mul(lo, m), a), s_lt(a, s_mul(lo + 2, m)))):
                    q = lo if c.decide(s_lt(a, s_mul(lo + 1, m))) else lo + 1
                    return q, s_add(a, -s_mul(q, m))
        if len(m.t) == 1 and isinstance(a, SInt):        # multiples of an atom divide exactly
            (mono, co), = m.t.items()
            if co == 1 and len(mono) == 1:
                t1 = {tuple(sorted(_minus(k, mono[0]))): v for k, v in a.t.items() if mono[0] in k}
                if t1:
                    a1 = mk(t1); a = mk({k: v for k, v in a.t.items() if mono[0] not in k})
                    q, r = s_divmod(a, m); return s_add(a1, q), r
    q, new = c.atom2(('div', a, m), 'div')
    r, new = c.atom2(('mod', a, m), 'mod')
    if new:
        c.fact(s_le(0, r)); c.fact(s_lt(r, m))
        f = s_eq(a, s_add(s_mul(q, m), r))
        if isinstance(f, SBool): f.eqp = None           # not a definition of a variable of the dividend
        c.fact(f)
        congruent(r, a, m)
        c.cong.append((r, a, m))
    return s_add(a1, q), r
def congruent(r, a, m):
    """the residue r of a modulo m against the residues known so far: equal, opposite or zero"""
    from . import poly
    c = CUR; reg = c.memo.setdefault('residues', [])
    P = poly.modred(poly.exact(a, m), m); ps = [(r2, P2) for r2, m2, P2 in reg[-12:] if poly.same_mod(m, m2)]
    if isinstance(P, int) and P == 0: c.fact(s_eq(r, 0))
    z = lambda X: isinstance(X, int) and X == 0
    red = lambda X: poly.modred(X, m)
    for i, (r2, P2) in enumerate(ps):
        if z(red(s_add(P, -P2))): c.fact(s_eq(r, r2))
        elif z(red(s_add(P, P2))): c.fact(s_or(s_and(s_eq(r, 0), s_eq(r2, 0)), s_eq(s_add(r, r2), m)))
        for r3, P3 in ps[:i]:
            # two residues are equal exactly when that of the difference is zero
            for x, X, y, Y, d, D in ((r, P, r2, P2, r3, P3), (r, P, r3, P3, r2, P2), (r2, P2, r3, P3, r, P)):
                w = s_add(X, -Y)
                if z(red(s_add(w, -D))) or z(red(s_add(w, D))): c.fact(s_and(s_implies(s_eq(x, y), s_eq(d, 0)), s_implies(s_eq(d, 0), s_eq(x, y))))
    reg.append((r, m, P))

def s_pow2(n): return 1 << n
def log2_of(x):
    """j when x is written as 2**j, else None"""
    if isinstance(x, int): return x.bit_length() - 1 if x > 0 and x & (x - 1) == 0 else None
    x = CUR.norm(x)
    if isinstance(x, int): return log2_of(x)
    if len(x.t) != 1: return None
    (m, k), = x.t.items()
    if len(m) != 1 or k < 1 or k & (k - 1): return None
    key = CUR.atoms[m[0]].key
    return s_add(key[2], k.bit_length() - 1) if key[0] == 'pow' and key[1] == 2 else None
def FLO(x, j):
    """x // 2**j for x >= 0"""
    if isinstance(j, int) and j == 0: return x
    a, new = CUR.atom2(('flo', x, j), 'flo')
    if new:
        p = POW(2, j); CUR.fact(s_implies(s_lt(x, p), s_eq(a, 0))); CUR.fact(s_implies(s_and(s_le(p, x), s_lt(x, s_mul(2, p))), s_eq(a, 1))); CUR.fact(s_le(0, a))
    return a
def BIT(x, j):
    """bit j of x >= 0"""
    a, new = CUR.atom2(('bit', x, j), 'bit')
    if new:
        CUR.fact(s_and(s_le(0, a), s_le(a, 1))); CUR.fact(s_eq(FLO(x, j), s_add(s_mul(2, FLO(x, s_add(j, 1))), a)))
    return a
def s_band(a, b):
    if isinstance(a, int) and isinstance(b, int): return a & b
    if isinstance(a, int): a, b = b, a
    if not isinstance(b, int):
        for x, y in ((a, b), (b, a)):
            j = log2_of(y)
            if j is not None: return POW(2, j) if CUR.decide(s_eq(BIT(x, j), 1)) else 0
        for x, y in ((a, b), (b, a)):
            v = CUR.concrete(y)
            if v is not None: return s_band(x, v)
        for x, y in ((a, b), (b, a)):
            j = log2_of(s_add(y, 1))
            if j is not None and CUR.concrete(j) is not None: return s_band(x, 2 ** CUR.concrete(j) - 1)
            if j is not None: return s_divmod(x, s_add(y, 1))[1]
        raise Unsupported('& of two symbolic ints')
    if b == -1: return a
    if b < 0:                      # ~mask: x & b = x - (x & ~b)
        return s_add(a, -s_band(a, ~b))
    out, pos = 0, 0
    while b >> pos:
        if not (b >> pos) & 1: pos += 1; continue
        n = 0
        while (b >> (pos + n)) & 1: n += 1
        q = s_divmod(a, 1 << pos)[0] if pos else a
        f = s_divmod(q, 1 << n)[1]
        out = s_add(out, s_mul(f, 1 << pos)); pos += n
    return out
def s_bor(a, b):
    if isinstance(a, int) and isinstance(b, int): return a | b
    if isinstance(b, int): k, x = b, a
    elif isinstance(a, int): k, x = a, b
    else:
        # disjoint: one is a multiple of 2^k and the other below 2^k
        for x, y in ((a, b), (b, a)):
            for k in (8, 16, 24, 7, 1, 4, 32):
                if CUR.quick(s_and(s_le(0, y), s_lt(y, 1 << k))):
                    if CUR.quick(s_eq(s_divmod(x, 1 << k)[1], 0)): return s_add(x, y)
            for m in (y.t if isinstance(y, SInt) else ()):      # y is a multiple of a power of two above x
                for a_ in m:
                    k = CUR.atoms[a_].key
                    if k[0] == 'pow' and log2_of(mk({(a_,): 1})) is not None and all(a_ in m2 for m2 in y.t):
                        if CUR.quick(s_and(s_le(0, x), s_lt(x, mk({(a_,): 1})))): return s_add(x, y)
        raise Unsupported('| of two symbolic ints')
    if k < 0: raise Unsupported('| with negative constant')
    return s_add(s_add(x, k), -s_band(x, k))
def s_bxor(a, b):
    if isinstance(a, int) and isinstance(b, int): return a ^ b
    if isinstance(b, int): k, x = b, a
    elif isinstance(a, int): k, x = a, b
    else: return xor_of(a, b)
    if k < 0: raise Unsupported('^ with negative constant')
    if k == 0: return x
    if xor_parts(x) is not None: return xor_of(x, k)
    return s_add(s_add(x, k), -s_mul(2, s_band(x, k)))
# exclusive or of bytes: a canonical set of operands (x ^ x = 0, order does not matter)
def xor_parts(x):
    if isinstance(x, SInt) and len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1: return CUR.memo.get('xors', {}).get(m[0])
    return None
def xor_of(*xs):
    c = CUR; k = 0; items = {}
    for x in xs:
        if isinstance(x, int):
            if not 0 <= x < 256: return xor_wide(xs)
            k ^= x; continue
        x = c.norm(x)
        if isinstance(x, int): k ^= x; continue
        p = xor_parts(x)
        if p is None:
            if not c.quick(s_and(s_le(0, x), s_lt(x, 256))): return xor_wide(xs)
            p = (0, {x.key(): x})
        k ^= p[0]
        for q, v in p[1].items():
            if q in items: del items[q]
            else: items[q] = v
    # operands that are equal on this path
    if len(items) > 1:
        ks = list(items)
        for i, p in enumerate(ks):
            for q in ks[i+1:]:
                if p in items and q in items and len(items) <= 6 and c.quick(s_eq(items[p], items[q])): del items[p], items[q]
    if not items: return k
    if len(items) == 1 and k == 0: return list(items.values())[0]
    key = ('xor', k, tuple(sorted(items)))
    a, new = c.atom2(key, 'xor')
    if new:
        (m, _), = a.t.items(); reg = c.memo.setdefault('xors', {})
        c.fact(s_and(s_le(0, a), s_lt(a, 256)))
        vs = list(items.values())
        for i2, (k2, it2) in list(reg.items())[-40:]:
            if k2 != k or len(it2) != len(vs) or len(vs) > 2: continue
            o = list(it2.values()); b = mk({(i2,): 1})
            same = s_and(*[s_eq(x, y) for x, y in zip(vs, o)])
            if len(vs) == 2: same = s_or(same, s_and(s_eq(vs[0], o[1]), s_eq(vs[1], o[0])))
            c.fact(s_implies(same, s_eq(a, b)))
        reg[m[0]] = (k, items)
    return a
def xor_wide(xs):
    """two non-negative integers of any size: bounds, the last bit, and zero exactly when they are equal"""
    c = CUR
    if len(xs) != 2: raise Unsupported('^ of symbolic ints')
    x, y = xs
    if not (c.quick(s_le(0, x)) and c.quick(s_le(0, y))): raise Unsupported('^ of two symbolic ints')
    k = sorted([c._k(x) if not isinstance(x, int) else x, c._k(y) if not isinstance(y, int) else y], key=repr)
    a, new = c.atom2(('xorw', k[0], k[1]), 'xor')
    if new:
        c.fact(s_and(s_le(0, a), s_le(a, s_add(x, y)), s_le(s_add(x, -y), a), s_le(s_add(y, -x), a)))
        c.fact(s_iff(s_eq(a, 0), s_eq(x, y)))
        c.fact(s_eq(s_divmod(s_add(s_add(a, x), y), 2)[1], 0))
    return a
def s_shl(a, n):
    if isinstance(a, int) and isinstance(n, int): return a << n
    if isinstance(n, int): return s_mul(a, 1 << n)
    return s_mul(a, POW(2, n))
def s_shr(a, n):
    if isinstance(a, int) and isinstance(n, int): return a >> n
    if isinstance(n, int):
        if n < 0: raise ProgExc(ValueError('negative shift count'))
        return s_divmod(a, 1 << n)[0]
    return s_divmod(a, POW(2, n))[0]

def POW(r, n):
    """r**n for concrete r >= 2 and n >= 0 (n may be symbolic)"""
    if isinstance(n, int):
        if n < 0: return CUR.atom2(('negpow', r, n), 'np')[0]      # unconstrained
        return r ** n
    if r > 2 and r & (r - 1) == 0:
        return POW(2, s_mul(n, r.bit_length() - 1))
    if CUR.subst:
        n = CUR.norm(n)
        if isinstance(n, int): return POW(r, n)
    k = n.t.get((), 0)
    base = s_add(n, -k)
    c = CUR
    if k < 0:                       # keep a negative offset inside the exponent
        base, k = n, 0
    elif k > 0:
        known = c.memo.setdefault('nonneg', set())
        if base not in known:
            if c.quick(s_le(0, base)): known.add(base)
            else: base, k = n, 0    # the rest of the exponent may be negative
    a, new = c.atom2(('pow', r, base), 'pow')
    if new:
        # exponents are non-negative on every path that builds the power (the caller's duty),
        # but the facts are guarded so that they are true in any case
        c.fact(s_implies(s_le(0, base), s_le(1, a)))
        c.fact(s_implies(s_eq(base, 0), s_eq(a, 1)))
        c.fact(s_implies(s_le(1, base), s_le(r, a)))
        for (r2, b2, a2) in c.pows:
            if r2 != r: continue
            g = s_and(s_le(0, base), s_le(0, b2))
            d = s_add(base, -b2)
            c.fact(s_implies(s_and(g, s_eq(d, 0)), s_eq(a, a2)))
            g7 = math.gcd(*d.t.values()) if isinstance(d, SInt) else 1
            for kk in (1, 4, 8) if r == 2 and g7 in (0, 1, 2, 4, 8) else (g7,) if r == 2 else (1,):
                c.fact(s_implies(s_and(g, s_le(kk, d)), s_le(s_mul(a2, r ** kk), a)))
                c.fact(s_implies(s_and(g, s_le(kk, -d)), s_le(s_mul(a, r ** kk), a2)))
                c.fact(s_implies(s_and(g, s_eq(d, kk)), s_eq(s_mul(a2, r ** kk), a)))
                c.fact(s_implies(s_and(g, s_eq(-d, kk)), s_eq(s_mul(a, r ** kk), a2)))
        c.pows.append((r, base, a))
    return s_mul(a, r ** k)

# ------------------------------------------------------------------ context
class Atom(object):
    __slots__ = ('idx', 'key', 'z', 'name', 'p')

class Obl(object):
    def __init__(self, unit, name, status, why, model, path):
        self.unit, self.name, self.status, self.why, self.model, self.path = unit, name, status, why, model, path

MISS = []
class Ctx(object):
    QUICK_MS, QUICK = 30000, 2000000       # a quick question is given up after so much work (not time: a slow machine gets the same answers)
    def __init__(self, unit, prefix, opts=None, log=None, nlog=0):
        self.unit = unit
        self.prefix = list(prefix); self.pos = 0
        # the answers of the solver on the way to the fork this path starts from (log), and those of this path: a path is
        # taken up again by answering the same questions as before, not by asking the solver once more
        self.old, self.nold, self.log, self.quiet = log, nlog, [], 0
        self.trace = []; self.pending = []
        self.atoms = []; self.by_key = {}; self.monos = {}
        self.solver = z3.SolverFor('QF_LIA') if False else z3.Solver()
        self.solver.set('timeout', self.QUICK_MS); self.solver.set('rlimit', self.QUICK)
        self.cong = []; self.quotients = []; self.pows = []
        self.obls = []; self.reached = set(); self.notes = []
        self.inputs = {}         # name -> symbolic value, for replay
        self.memo = {}
        self.opts = opts or {}
        self.solver_s = 0.0; self.nq = 0
        self.facts = []
        self.extra = {}
        self.assumed = set()
        self.modfacts = []       # user congruences (poly, m): poly == 0 mod m
        self.subst = {}; self.substv = 0
        self.zero = []           # polynomials known to be 0 (non-linear ones)
    # -- atoms
    def atom2(self, key, name):
        k = self._k(key)
        a = self.by_key.get(k)
        if a is not None: return a.p, False
        a = Atom(); a.idx = len(self.atoms); a.key = key
        a.name = '%s%d' % (name, a.idx)
        a.z = z3.Int('a%d' % a.idx)
        a.p = SInt({(a.idx,): 1})
        self.atoms.append(a); self.by_key[k] = a
        return a.p, True
    def _k(self, key):
        if isinstance(key, SInt): return key.key()
        if isinstance(key, tuple): return tuple(self._k(x) for x in key)
        if hasattr(key, 'ckey'): return key.ckey()
        if isinstance(key, SBool): return ('SB', key.e.sexpr())
        return key
    def fresh(self, name, lo=None, hi=None, record=True):
        """fresh unconstrained integer, lo <= v <= hi"""
        n = self.extra.setdefault('fresh', {}); i = n.get(name, 0); n[name] = i + 1
        nm = name if i == 0 else '%s#%d' % (name, i)
        p, _ = self.atom2(('var', nm), 'v'); self.atoms[-1].name = nm
        if lo is not None: self.fact(s_le(lo, p))
        if hi is not None: self.fact(s_le(p, hi))
        if record: self.inputs[nm] = p
        return p
    def fresh_bool(self, name):
        n = self.extra.setdefault('freshb', {}); i = n.get(name, 0); n[name] = i + 1
        b = SBool(z3.Bool('%s#%d' % (name, i)))
        self.inputs['%s#%d' % (name, i)] = b
        return b
    def mono(self, m):
        if len(m) == 1: return self.atoms[m[0]].z
        v = self.monos.get(m)
        if v is None:
            v = z3.Int('m_' + '_'.join(map(str, m))); self.monos[m] = v
            if self.opts.get('mono_lemmas', True) and len(m) <= 3:
                # sign and size of a product of integers (sound for all integers)
                x, y = self.mono(m[:1]), self.mono(m[1:])
                for e in (z3.Implies(z3.Or(x == 0, y == 0), v == 0), z3.Implies(z3.And(x >= 1, y >= 1), z3.And(v >= x, v >= y)),
                          z3.Implies(z3.And(x <= -1, y >= 1), z3.And(v <= x, v <= -y)), z3.Implies(z3.And(x >= 1, y <= -1), z3.And(v <= y, v <= -x)),
                          z3.Implies(z3.And(x <= -1, y <= -1), z3.And(v >= -x, v >= -y)), z3.Implies(x == 1, v == y), z3.Implies(y == 1, v == x)):
                    self.solver.add(e); self.facts.append(e)
        return v
    # -- definitions of fresh variables by equalities that became known
    def norm(self, p):
        if not self.subst or not isinstance(p, SInt): return p
        for _ in range(50):
            hit = None
            for m in p.t:
                for a in m:
                    if a in self.subst: hit = a; break
                if hit is not None: break
            if hit is None: return p
            d = self.subst[hit]; out = 0
            for m, c in p.t.items():
                if hit not in m: out = s_add(out, mk({m: c})); continue
                k = m.count(hit)
                out = s_add(out, s_mul(mk({tuple(x for x in m if x != hit): c}), s_pow(d, k)))
            p = out
            if not isinstance(p, SInt): return p
        return p
    def learn(self, b):
        if b.eqp is None: return
        d = self.norm(s_add(b.eqp[0], -b.eqp[1]))
        if not isinstance(d, SInt): return
        for m in [m for k in ('var', 'nd') for m in sorted(d.t, key=lambda m: -m[0] if m else 0) if len(m) == 1 and self.atoms[m[0]].key[0] == k]:
            if d.t[m] in (1, -1):
                a = m[0]
                if any(a in k for k in d.t if k != m): continue
                self.subst[a] = s_add(mk({m: 1}), -s_mul(d, d.t[m])); self.substv += 1
                return
    # -- solver
    def fact(self, b):
        if b is True: return
        if b is False: raise PathEnd()
        self.learn(b)
        self.solver.add(b.e); self.facts.append(b.e)
    def _check(self, *es, ms=None, again=False):
        if not again:
            key = (len(self.facts), ms) + tuple(e.hash() for e in es)
            r = self.logged(key)
            if r is not None: return r[0]
        t = time.time(); self.nq += 1
        if ms: self.solver.set('timeout', ms); self.solver.set('rlimit', 0)
        r = self.solver.check(*es)
        if ms: self.solver.set('timeout', self.QUICK_MS); self.solver.set('rlimit', self.QUICK)
        self.solver_s += time.time() - t
        if not again: self.record(key, r)
        return r
    def logged(self, key):
        if self.quiet: return None
        i = len(self.log)
        if i >= self.nold: return None
        if self.old[i][0] != key: self.nold = 0; MISS.append((self.old[i][0], key)); return None           # another question than before
        self.log.append(self.old[i]); return (self.old[i][1],)
    def record(self, key, r):
        if not self.quiet: self.log.append((key, r))
    def feasible(self, ms=20000):
        """False only if the path condition is contradictory"""
        return self._check(ms=ms, again=True) != z3.unsat
    def quick(self, b):
        """True only if b is proved quickly"""
        if isinstance(b, bool): return b
        return self._check(z3.Not(b.e)) == z3.unsat
    def entails(self, b, ms=10000):
        if isinstance(b, bool): return b
        return self._check(z3.Not(b.e), ms=ms) == z3.unsat
    def assume(self, b):
        if b is True: return
        if b is False: raise PathEnd()
        self.learn(b)
        self.solver.add(b.e); self.facts.append(b.e)
        if self._check() == z3.unsat: raise PathEnd()
    def decide(self, b, label=''):
        if isinstance(b, bool): return b
        if not isinstance(b, SBool): raise Unsupported('decide %r' % (b,))
        if self._check(b.e) == z3.unsat:
            return False
        if self._check(z3.Not(b.e)) == z3.unsat:
            return True
        v = self.choose(2, label) == 0
        if v: self.learn(b)
        e = b.e if v else z3.Not(b.e)
        self.solver.add(e); self.facts.append(e)
        return v
    def choose(self, n, label=''):
        if self.pos < len(self.prefix): v = self.prefix[self.pos]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.pending.append((tuple(self.trace) + (k,), self.log, len(self.log)))
        self.pos += 1; self.trace.append(v)
        if len(self.trace) > self.opts.get('max_depth', 400): raise Unsupported('path too deep')
        return v
    def concrete(self, x):
        """the unique value of x under the path condition, or None"""
        if isinstance(x, int): return x
        m = self.memo.get(('conc', x.key()))
        if m is not None and m[0] == 'v': return m[1]
        key = ('conc', len(self.facts), x.key()); r = self.logged(key)
        if r is None:
            v = None; self.quiet += 1
            try:
                if self._check() == z3.sat:
                    v = self.solver.model().eval(zi(x), model_completion=True)
                    try: v = v.as_long()
                    except Exception: v = None
                    if v is not None and not self.quick(s_eq(x, v)): v = None
            finally: self.quiet -= 1
            self.record(key, v); r = (v,)
        if r[0] is not None: self.memo[('conc', x.key())] = ('v', r[0])
        return r[0]
    def value_in(self, x, limit, what):
        """concretize by forking over the feasible values (bounded)"""
        c = self.concrete(x)
        if c is not None: return c
        for k in range(limit):
            if self.decide(s_eq(x, k), what): return k
        raise Unsupported('cannot concretize %s (%s)' % (what, show(x)))
    # -- obligations
    def oblige(self, name, b, ms=None, note=''):
        ms = ms or self.opts.get('ms', 20000)
        if b is True: st, why, model = 'proved', 'syntactic', None
        else:
            e = z3.BoolVal(False) if b is False else b.e
            r = self._check(z3.Not(e), ms=ms)
            if r == z3.unsat: st, why, model = 'proved', 'z3', None
            elif r == z3.sat:
                self._check(z3.Not(e), ms=ms, again=True)
                st, why, model = 'failed', note or str(e)[:300], self.model_inputs()
            else: st, why, model = 'unknown', note or self.solver.reason_unknown(), None
        self.obls.append(Obl(self.unit, name, st, why, model, list(self.trace)))
        if st == 'proved' and b is not True: self.fact(b)
        return st == 'proved'
    def oblige_by(self, name, ok, how, note=''):
        """an obligation discharged by another back end (poly prover, GF(2) normal form ...)"""
        st = 'proved' if ok else 'failed'
        model = None
        if not ok:
            r = self._check(ms=20000, again=True)
            if r == z3.unsat: raise PathEnd()           # no such path
            if r == z3.sat: model = self.model_inputs()
        self.obls.append(Obl(self.unit, name, st, how if ok else (note or how), model, list(self.trace)))
        return ok
    def model_inputs(self):
        try:
            m = self.solver.model(); out = {}
            for k, v in self.inputs.items():
                try:
                    if isinstance(v, SInt): out[k] = m.eval(zi(v), model_completion=True).as_long()
                    elif isinstance(v, SBool): out[k] = z3.is_true(m.eval(v.e, model_completion=True))
                    elif isinstance(v, (int, str)): out[k] = v
                    elif hasattr(v, 'from_model'): out[k] = v.from_model(m)
                except Exception: pass
            return out
        except z3.Z3Exception: return None
    def reach(self, label):
        self.reached.add(label)
    def trust(self, what): self.assumed.add(what)
