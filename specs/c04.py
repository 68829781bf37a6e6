"""C04: public key compression"""
from .common import *
from .c12 import k_n2s
from pyvc import poly
from nbc.util import key as KEY, ecc
from nbc.util.ecdsa import ecdsa as E, ellipticcurve as EC, numbertheory as N, curves, util as U
P, A, B, ORDER = KEY.curve.curve.p(), KEY.curve.curve.a(), KEY.curve.curve.b(), KEY.curve.order
class World(object):
    """the curve secp256k1: which pairs are points, which numbers are squares"""
    def __init__(self, it, cv=KEY.curve):
        self.cv, self.p, self.a, self.b = cv, cv.curve.p(), cv.curve.a(), cv.curve.b()
        c = self.c = it.c; self.it = it; self.rules = []; self.pts = []; self.roots = []; self.seen = []
        c.trust('every point of a supported curve is a multiple of its base point (prime order, C48), so n times a point is infinity (C09)')
        c.trust('contract of square_root_mod_prime (C08): a root below p when there is one, an error otherwise; a number has at most two roots modulo a prime')
        it.contracts.update({EC.CurveFp.__dict__['contains_point']: self.k_contains, EC.Point.__dict__['__mul__']: self.k_mul, EC.Point.__dict__['__init__']: self.k_init,
            N.square_root_mod_prime: self.k_root, U.number_to_string: k_n2s, E.point_is_valid: self.k_valid, curves.orderlen: lambda it, a, kw: ndigits(256, a[0])})
    def eq(self, x, y): return s_add(s_mul(y, y), -s_add(s_add(s_mul(s_mul(x, x), x), s_mul(self.a, x)), self.b))
    def on(self, x, y):
        """(x, y) satisfies the equation: known, or a question asked once"""
        q = poly.reduce(self.eq(x, y), self.p, self.rules)[0]
        if is_int(q) and not isinstance(q, SInt): return q == 0
        for k, b in self.seen:
            if poly.is_zero(s_add(k, -q), self.p, self.rules): return b
        b = self.c.fresh_bool('on_curve'); self.seen.append((q, b)); return b
    def valid(self, x, y): return s_and(s_le(0, x), s_lt(x, self.p), s_le(0, y), s_lt(y, self.p), self.on(x, y))
    def k_contains(self, it, a, kw): return self.on(a[1], a[2])
    def k_valid(self, it, a, kw):
        return self.truth(self.valid(a[1], a[2])) if a[0] is KEY.curve.generator else it.call_body(E.point_is_valid, a, kw)
    def truth(self, b): return self.c.decide(b) if isinstance(b, SBool) else b
    def k_init(self, it, a, kw): raise Unsupported('point')
    def k_mul(self, it, a, kw): raise Unsupported('multiple')
    def k_root(self, it, a, kw):
        v, m = a; c = self.c
        c.oblige_by('a root modulo the field prime', same(m, P), 'path'); c.oblige('of a reduced number', s_and(s_le(0, v), s_lt(v, P)))
        r = c.fresh('root', 0, record=False); c.fact(s_lt(r, P))
        for y in self.roots:
            if poly.is_zero(s_add(v, -s_mul(y, y)), P, self.rules):
                c.fact(s_or(s_eq(r, y), s_and(s_eq(r, s_add(P, -y)), s_not(s_eq(y, 0))))); self.rules.append(s_add(s_mul(r, r), -s_mul(y, y))); return r
        b = self.square(v)
        if not self.truth(b): raise ProgExc(N.SquareRootError('no root'))
        self.rules.append(s_add(s_mul(r, r), -v)); self.made = r; return r
    def square(self, v):
        v = poly.reduce(v, P, self.rules)[0]
        for k, b in getattr(self, 'sq', []):
            if poly.is_zero(s_add(k, -v), P, self.rules): return b
        b = self.c.fresh_bool('square'); self.sq = getattr(self, 'sq', []) + [(v, b)]; return b
    def point(self, lo=0):
        c = self.c; x, y = c.fresh('x', 0), c.fresh('y', 0); c.assume(s_lt(x, P)); c.assume(s_lt(y, P))
        self.rules.append(self.eq(x, y)); self.roots.append(y); return x, y
def be32(v): return mk_pos(256, None, v, 32)
def full(x, y): return rcat(b'\x04', be32(x), be32(y))
def nox2(it):
    """x**3 + 7 is never zero modulo p, so no point has y = 0"""
    it.c.oblige_by('the curve has no point of order two', A == 0 and P % 3 == 1 and pow(-B, (P - 1) // 3, P) != 1, 'computed')
def odd(v): return s_divmod(v, 2)[1]
def anykey(it, n=None):
    c = it.c; L = c.fresh('len', 0) if n is None else n; k = whole(Sym('key', L)); c.inputs['key'] = k; return k, L
def read(k): return val(rslice(k, 1, 33)), val(rslice(k, 33, 65))
@unit('C04', 'compressing', reach=['compressed', 'refused'])
def u0(it):
    W = World(it); c = it.c; k, L = anykey(it); ok = s_and(s_eq(L, 65), s_eq(rindex(k, 0), 4)) if c.decide(s_eq(L, 65)) else False
    try: r = it.call(KEY.compress_public_key, [k])
    except ProgExc as e:
        c.oblige_by('refused with ValueError', isinstance(e.exc, ValueError), 'path', repr(e.exc)); c.oblige('only a key that is not in uncompressed form is refused', s_not(ok)); c.reach('refused'); return
    if not c.oblige('a key that is not in uncompressed form is refused', ok): return
    y = val(rslice(k, 33, 65)); oblige_eq(it, 'parity of y, then x', r, rcat(mk_pos(256, None, s_add(2, odd(y)), 1), rslice(k, 1, 33))); c.reach('compressed')
@unit('C04', 'compressing and decompressing a point gives it back', reach=['end'])
def u1(it):
    W = World(it); c = it.c; nox2(it); x, y = W.point(); c.fact(s_lt(0, y)); k = full(x, y)
    z = it.call(KEY.compress_public_key, [k]); oblige_eq(it, '02 for even y and 03 for odd y, then x', z, rcat(mk_pos(256, None, s_add(2, odd(y)), 1), be32(x)))
    c.oblige('33 bytes', s_eq(rlen(z), 33)); oblige_eq(it, 'decompressed', it.call(KEY.decompress_public_key, [z]), k)
    oblige_eq(it, 'an uncompressed key is kept', it.call(KEY.decompress_public_key, [k]), k)
@unit('C04', 'decompressing 33 bytes', reach=['point', 'refused'])
def u2(it):
    W = World(it); c = it.c; nox2(it); k, L = anykey(it, 33); ch = rindex(k, 0); x = val(rslice(k, 1, 33))
    sq = W.square(s_add(s_add(s_mul(s_mul(x, x), x), s_mul(A, x)), B)); ok = s_and(s_or(s_eq(ch, 2), s_eq(ch, 3)), s_lt(x, P), sq)
    try: r = it.call(KEY.decompress_public_key, [k])
    except ProgExc as e:
        c.oblige_by('refused with ValueError', isinstance(e.exc, ValueError), 'path', repr(e.exc)); c.oblige('only what is not a compressed point is refused', s_not(ok)); c.reach('refused'); return
    if not c.oblige('what is not a compressed point is refused', ok): return
    c.oblige('65 bytes', s_eq(rlen(r), 65)); oblige_eq(it, 'the prefix of an uncompressed key', rslice(r, 0, 1), b'\x04'); oblige_eq(it, 'the same x', rslice(r, 1, 33), rslice(k, 1, 33))
    y = val(rslice(r, 33, 65)); c.fact(s_lt(0, W.made))
    poly.oblige_zero(it, 'a point of the curve', W.eq(x, y), P, W.rules); c.oblige('y in the field', s_and(s_le(0, y), s_lt(y, P))); c.oblige('the parity asked for', s_eq(odd(y), odd(ch))); c.reach('point')
@unit('C04', 'decompressing 65 bytes', reach=['point', 'refused'])
def u3(it):
    W = World(it); c = it.c; k, L = anykey(it, 65); x, y = read(k); ok = s_and(s_eq(rindex(k, 0), 4), W.valid(x, y))
    try: r = it.call(KEY.decompress_public_key, [k])
    except ProgExc as e:
        c.oblige_by('refused with ValueError', isinstance(e.exc, ValueError), 'path', repr(e.exc)); c.oblige('only what is not a point is refused', s_not(ok)); c.reach('refused'); return
    if not c.oblige('what is not a point is refused', ok): return
    oblige_eq(it, 'the key itself', r, k); c.reach('point')
@unit('C04', 'keys of another length are refused', reach=['end'])
def u4(it):
    W = World(it); c = it.c; k, L = anykey(it); c.assume(s_not(s_or(s_eq(L, 33), s_eq(L, 65))))
    try: it.call(KEY.decompress_public_key, [k]); e = None
    except ProgExc as x: e = x.exc
    c.oblige_by('refused with ValueError', isinstance(e, ValueError), 'path', repr(e))
for cv in curves.curves:
  @unit('C04', 'which pairs of numbers are valid public keys (%s)' % cv.name, reach=['valid', 'not'])
  def u5(it, cv=cv):
    W = World(it, cv); c = it.c; x, y = c.fresh('x'), c.fresh('y'); v = W.valid(x, y); del it.contracts[E.point_is_valid]
    class Pt(SObj):
        def s_isinstance(self, it, t): return t in (EC.Point, object)
    pts = []
    def k_init(it, a, kw): c.oblige('a point is made of coordinates on the curve', s_and(it.eqb(a[2], x), it.eqb(a[3], y), W.on(x, y))); pts.append(a[0])
    def k_mul(it, a, kw):
        c.oblige_by('a multiple of the point', any(a[0] is q for q in pts), 'path'); c.oblige('the order of the curve', it.eqb(a[1], cv.order)); return EC.INFINITY
    it.contracts[EC.Point.__dict__['__init__']] = k_init; it.contracts[EC.Point.__dict__['__mul__']] = k_mul; it.contracts[EC.Point.__dict__['__rmul__']] = k_mul
    r = it.truth(it.call(E.point_is_valid, [cv.generator, x, y])); c.oblige('exactly the points of the curve', v if r else s_not(v)); c.reach('valid' if r else 'not')
