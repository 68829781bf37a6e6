"""An abstract cyclic group of points: what the users of ellipticcurve.Point may rely on (C09).

Every point is a multiple k*G of the generator; sums and multiples of points are sums and multiples of the numbers k
modulo the order n; k*G is infinity exactly for k = 0 modulo n; two multiples have the same x exactly when they are
equal or opposite.  That the group of a supported curve has prime order n, so that G generates every point, is C48."""
from .common import *
from pyvc import poly
from pyvc.absl import AObj, Fn
from nbc.util.ecdsa import ellipticcurve as EC, numbertheory as N, curves
class Group(object):
    def __init__(self, it, name='', lo=2, n=None, p=None):
        c = self.c = it.c; self.it = it
        c.trust('the points of a supported curve form a cyclic group of prime order generated by its base point (C48), and ellipticcurve.Point computes in it (C09)')
        self.n = c.fresh('n' + name, lo) if n is None else n; self.p = c.fresh('p' + name, 3) if p is None else p; self.rules = []; self.subs = {}; self.reps = []; self.name = name
        self.curve = AObj(p=Fn(lambda it, a, kw: self.p))
        self.G = GP(self, 1, ordered=True); self.point(1)
        it.contracts[N.inverse_mod] = self.k_inverse
    def k_inverse(self, it, a, kw):
        v, m = a; c = self.c
        c.oblige_by('inverse modulo the order', same(m, self.n), 'path')
        c.oblige('the inverse exists', s_not(s_eq(s_divmod(v, m)[1], 0)))
        c.trust('contract of inverse_mod (proved under C07); numbers below a prime are invertible')
        i, new = c.atom2(('inverse', poly.modred(poly.exact(v, m), m), m), 'inv')
        if new: c.fact(s_and(s_lt(0, i), s_lt(i, m))); self.rules.append(s_add(s_mul(i, v), -1))
        return i
    def zero(self, P):
        """P is a multiple of n"""
        def s(v):
            v = poly.exact(self.c.norm(v), self.n)
            for _ in range(4): v = poly.subst(v, self.subs)
            return v
        return poly.is_zero(s(P), self.n, [s(r) for r in self.rules])
    def rep(self, k):
        """(scalar, sign, x, y): the known multiple with this scalar up to sign"""
        for r in self.reps:
            if self.zero(s_add(k, -r[0])): return r, 1
        for r in self.reps:
            if self.zero(s_add(k, r[0])): return r, -1
        return None, 0
    def point(self, k):
        """give the multiple k a name"""
        r, s = self.rep(k)
        if r is None:
            c = self.c; i = len(self.reps); x, y = c.fresh('x%s%d' % (self.name, i), 0, record=False), c.fresh('y%s%d' % (self.name, i), 0, record=False)
            c.fact(s_lt(x, self.p)); c.fact(s_lt(y, self.p)); r, s = (k, x, y), 1; self.reps.append(r)
        return r, s
    def X(self, k): return self.point(k)[0][1]
    def Y(self, k):
        r, s = self.point(k)
        if s > 0: return r[2]
        return 0 if self.c.decide(s_eq(r[2], 0)) else s_add(self.p, -r[2])
    def is_inf(self, k):
        r, s = self.rep(k); k = r[0] if r is not None else k
        return s_eq(s_divmod(k, self.n)[1], 0)
class GP(SObj):
    """the multiple k of the generator"""
    _cls = EC.Point
    def __init__(self, g, k, ordered=False): self.g, self.k, self.ordered = g, k, ordered
    def __repr__(self): return 'point(%r)' % (self.k,)
    def s_truth(self, it): return True
    def s_isinstance(self, it, t): return t in (EC.Point, object)
    def s_getattr(self, it, a):
        g = self.g
        if a in ('x', 'y'):
            def f(it, x, kw):
                if it.c.decide(g.is_inf(self.k)): return None
                return g.X(self.k) if a == 'x' else g.Y(self.k)
            return Fn(f)
        if a == 'order': return Fn(lambda it, x, kw: g.n if self.ordered else None)
        if a == 'curve': return Fn(lambda it, x, kw: g.curve)
        if a == 'double': return Fn(lambda it, x, kw: GP(g, s_mul(2, self.k)))
        raise Unsupported('attribute %s of a point' % a)
    def s_eq(self, it, o):
        if o is EC.INFINITY: return self.g.is_inf(self.k)
        if isinstance(o, GP) and o.g is self.g: return self.g.is_inf(s_add(self.k, -o.k))
        return False
    def s_binop(self, it, op, l, r):
        g = self.g
        if op == 'Add':
            if l is EC.INFINITY: return r
            if r is EC.INFINITY: return l
            if isinstance(l, GP) and isinstance(r, GP) and l.g is r.g: return GP(g, s_add(l.k, r.k))
        if op == 'Mult':
            e = r if l is self else l
            if is_int(e) and not isinstance(e, bool):
                it.c.oblige('a multiple is taken of a number that is not negative', s_le(0, e))
                return GP(g, s_mul(e, self.k))
        raise ProgExc(TypeError('point arithmetic'))
def secp256k1(it): return real_curve(it, curves.SECP256k1)
def real_curve(it, cv):
    """the group of a supported curve, behind the real curve object"""
    c = it.c; g = Group(it, n=cv.order, p=cv.curve.p()); made = []
    def k_point(it, a, kw):
        kw = dict(zip(('curve', 'x', 'y', 'order'), a), **kw)
        c.oblige_by('a point of the curve', kw['curve'] is cv.curve, 'path', repr(kw['curve']))
        for k, x, y in g.reps:
            if c.quick(s_and(it.eqb(kw['x'], x), it.eqb(kw['y'], y))): return GP(g, k, ordered=kw.get('order') is not None)
        raise Unsupported('coordinates of an unknown point')
    def k_mul(it, a, kw):
        if a[0] is not cv.generator: raise Unsupported('multiple of another point')
        return g.G.s_binop(it, 'Mult', g.G, a[1])
    def k_add(it, a, kw):
        x = [g.G if v is cv.generator else v for v in a]; return g.G.s_binop(it, 'Add', x[0], x[1])
    P = EC.Point.__dict__
    it.contracts.update({EC.Point: k_point, P['__mul__']: k_mul, P['__rmul__']: k_mul, P['__add__']: k_add})
    return g
def be32(v): return mk_pos(256, None, v, 32)
def full(g, k): return rcat(b'\x04', be32(g.X(k)), be32(g.Y(k)))
def short(g, k): return rcat(mk_pos(256, None, s_add(2, s_divmod(g.Y(k), 2)[1]), 1), be32(g.X(k)))
def k_decompress(g):
    """C04"""
    def k(it, a, kw):
        c = it.c; c.trust('contract of decompress_public_key (proved under C04)')
        for k, x, y in g.reps:
            for f in (full, short):
                if c.quick(it.eqb(a[0], f(g, k))): return full(g, k)
        raise Unsupported('another public key')
    return k
class Curve(SObj):
    """a supported curve"""
    def __init__(self, it, g):
        self.g = g; n = ndigits(256, g.n)
        self.at = dict(generator=g.G, order=g.n, baselen=n, signature_length=s_mul(2, n), verifying_key_length=s_mul(2, n), name='curve', curve=g.curve)
    def s_getattr(self, it, a):
        if a in self.at: return self.at[a]
        raise Unsupported('attribute %s of a curve' % a)
    def s_eq(self, it, o): return self is o
    def s_truth(self, it): return True
