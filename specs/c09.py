"""C09: the group law

Trusted mathematics: for an odd prime p, y1**2 = y2**2 mod p only for y1 = y2 or y1 = -y2; a number that is not a multiple
of p is invertible; the multiples of a point add like integers (associativity of the group law)."""
from .common import *
from pyvc import poly
from nbc.util.ecdsa import ellipticcurve as EC, numbertheory as N
AX = 'elliptic curves: chord-and-tangent addition on a curve over a prime field is associative; squares have at most two roots modulo a prime'
CP = fn_of = lambda cls, n: cls.__dict__[n]
@unit('C09', 'a point is on the curve exactly when it satisfies the equation', reach=['end'])
def u0(it):
    c = it.c; p = c.fresh('p', 3); a, b, x, y = [c.fresh(n) for n in 'abxy']
    cv = it.call(EC.CurveFp, [p, a, b]); c.inputs['p'] = p
    w = s_divmod(s_add(s_mul(y, y), -s_add(s_add(s_mul(s_mul(x, x), x), s_mul(a, x)), b)), p)[1]
    r = it.truth(it.call(it.getattr(cv, 'contains_point'), [x, y]))
    c.oblige('the curve equation', s_eq(w, 0) if r else s_not(s_eq(w, 0)))
    for n, v in zip('pab', (p, a, b)): c.oblige('parameter %s' % n, it.eqb(it.call(it.getattr(cv, n)), v))
class World(object):
    """a curve over an odd prime with what is known about its numbers modulo p"""
    def __init__(self, it):
        c = self.c = it.c; self.it = it; c.trust(AX); p = self.p = c.fresh('p', 3); t = c.fresh('half', 1, record=False)
        odd = s_eq(p, s_add(s_mul(2, t), 1)); odd.eqp = None; c.fact(odd)
        self.a, self.b = c.fresh('a'), c.fresh('b'); self.rules = []; self.subs = {}; self.known = []
        it.contracts[N.inverse_mod] = self.k_inverse; it.contracts[CP(EC.CurveFp, 'contains_point')] = self.k_contains
        self.cv = it.call(EC.CurveFp, [p, self.a, self.b])
    def k_inverse(self, it, a, kw):
        v, m = a; c = self.c
        c.oblige_by('inverse modulo p', same(m, self.p), 'path')
        c.oblige('the inverse exists', s_not(s_eq(s_divmod(v, m)[1], 0)))
        i, new = c.atom2(('inverse', poly.modred(poly.exact(v, m), m), m), 'inv')
        if new: c.fact(s_and(s_lt(0, i), s_lt(i, m))); self.rules.append(s_add(s_mul(i, v), -1))
        return i
    def zero(self, P):
        P = poly.subst(poly.exact(self.c.norm(P), self.p), self.subs)
        for _ in range(4): P = poly.subst(P, self.subs)
        return poly.is_zero(P, self.p, [poly.subst(poly.subst(poly.exact(r, self.p), self.subs), self.subs) for r in self.rules], allow=(2,))
    def eq(self, x, y): return s_add(s_mul(y, y), -s_add(s_add(s_mul(s_mul(x, x), x), s_mul(self.a, x)), self.b))
    def k_contains(self, it, a, kw):
        cv, x, y = a; c = self.c
        if not (is_int(x) and is_int(y)): raise Unsupported('coordinates')
        if any(same(x, u) and self.zero(s_add(s_mul(y, y), -s_mul(v, v))) for u, v in self.known): return True
        ok = self.zero(self.eq(x, y))
        c.oblige_by('the new point satisfies the curve equation', ok, 'poly', 'not derived: %r %r' % (x, y)) if self.known else None
        return True if ok else SBoolFresh(c)
    def point(self, n):
        """any point of the curve"""
        it, c = self.it, self.c; x, y = c.fresh('x' + n, 0), c.fresh('y' + n, 0); c.assume(s_lt(x, self.p)); c.assume(s_lt(y, self.p))
        self.known.append((x, y)); return it.call(EC.Point, [self.cv, x, y]), x, y
def SBoolFresh(c): return c.fresh_bool('on_curve')
def is_inf(r): return r is EC.INFINITY
def coords(it, r): return it.call(it.getattr(r, 'x')), it.call(it.getattr(r, 'y'))
def expect_point(it, W, r, x, y, what, reduced=True):
    """r is the point with coordinates congruent to x, y"""
    c = it.c
    if not c.oblige_by('%s: a finite point' % what, isinstance(r, EC.Point) and not is_inf(r), 'path', repr(r)): return
    rx, ry = coords(it, r)
    c.oblige_by('%s: x' % what, W.zero(s_add(rx, -x)), 'poly', poly.show(rx)); c.oblige_by('%s: y' % what, W.zero(s_add(ry, -y)), 'poly', poly.show(ry))
    c.oblige('%s: coordinates in range' % what, s_and(s_le(0, rx), s_lt(rx, W.p), s_le(0, ry), s_lt(ry, W.p)))
    c.oblige_by('%s: on the same curve' % what, it.call(it.getattr(r, 'curve')) is W.cv, 'path')
def chord(it, W, x1, y1, x2, y2):
    """L with y2 = y1 + L (x2 - x1): its existence, and what the two curve equations say about a and b"""
    c = it.c; D = s_add(x2, -x1); I = W.k_inverse(it, [D, W.p], {}); L = c.fresh('slope', record=False)
    ai, bi, yi = [poly.atom_of(v) for v in (W.a, W.b, y2)]
    # y2 = y1 + L D  for  L = (y2 - y1) I
    c.oblige_by('slope of the chord', poly.is_zero(s_add(s_mul(s_mul(s_add(y2, -y1), I), D), -s_add(y2, -y1)), W.p, W.rules), 'poly')
    W.subs = {yi: s_add(y1, s_mul(L, D))}
    ea = s_add(s_add(s_mul(2, s_mul(y1, L)), s_mul(s_mul(L, L), D)), -s_add(s_add(s_mul(x1, x1), s_mul(x1, x2)), s_mul(x2, x2)))
    # the difference of the curve equations, divided by D
    diff = poly.subst(s_add(W.eq(x2, y2), -W.eq(x1, y1)), W.subs)
    c.oblige_by('a follows from the two curve equations', poly.is_zero(s_add(s_add(W.a, -ea), s_mul(I, diff)), W.p, W.rules), 'poly')
    W.subs[ai] = ea; W.subs[bi] = s_add(s_mul(y1, y1), -s_add(s_mul(s_mul(x1, x1), x1), s_mul(W.a, x1)))
    return L
def tangent(it, W, x, y):
    """L with 2 y L = 3 x**2 + a"""
    c = it.c; I = W.k_inverse(it, [s_mul(2, y), W.p], {}); L = c.fresh('slope', record=False)
    t = s_add(s_mul(3, s_mul(x, x)), W.a)
    c.oblige_by('slope of the tangent', poly.is_zero(s_add(s_mul(s_mul(2, y), s_mul(t, I)), -t), W.p, W.rules), 'poly')
    W.subs = {poly.atom_of(W.a): s_add(s_mul(2, s_mul(y, L)), -s_mul(3, s_mul(x, x))), poly.atom_of(W.b): s_add(s_mul(y, y), -s_add(s_mul(s_mul(x, x), x), s_mul(W.a, x)))}
    return L
def third(L, x1, y1, x2): x3 = s_add(s_add(s_mul(L, L), -x1), -x2); return x3, s_add(s_mul(L, s_add(x1, -x3)), -y1)
def expect_double(it, W, r, x, y):
    c = it.c
    if c.decide(s_eq(y, 0)): c.oblige_by('twice a point of order two is infinity', is_inf(r), 'path', repr(r)); c.reach('order two'); return False
    return True
@unit('C09', 'sum of two points', reach=['chord', 'tangent', 'opposite', 'order two'])
def u1(it):
    W = World(it); c = it.c; P, x1, y1 = W.point('1'); Q, x2, y2 = W.point('2')
    # y1**2 = y2**2 for equal x
    c.fact(s_implies(s_eq(x1, x2), s_or(s_eq(y1, y2), s_eq(s_add(y1, y2), W.p), s_and(s_eq(y1, 0), s_eq(y2, 0)))))
    if c.decide(s_eq(x1, x2)):
        if c.decide(s_eq(y1, y2)):
            inf = c.decide(s_eq(y1, 0))
            if not inf: L = tangent(it, W, x1, y1)
            r = it.binop('Add', P, Q)
            if inf: c.oblige_by('twice a point of order two is infinity', is_inf(r), 'path', repr(r)); c.reach('order two'); return
            expect_point(it, W, r, *third(L, x1, y1, x1), what='tangent'); c.reach('tangent'); return
        r = it.binop('Add', P, Q)
        c.oblige_by('opposite points sum to infinity', is_inf(r), 'path', repr(r)); c.reach('opposite'); return
    L = chord(it, W, x1, y1, x2, y2); r = it.binop('Add', P, Q)
    expect_point(it, W, r, *third(L, x1, y1, x2), what='chord'); c.reach('chord')
@unit('C09', 'double of a point', reach=['tangent', 'order two'])
def u2(it):
    W = World(it); c = it.c; P, x, y = W.point('1')
    if c.decide(s_eq(y, 0)): c.oblige_by('twice a point of order two is infinity', is_inf(it.call(it.getattr(P, 'double'))), 'path'); c.reach('order two'); return
    L = tangent(it, W, x, y); expect_point(it, W, it.call(it.getattr(P, 'double')), *third(L, x, y, x), what='tangent'); c.reach('tangent')
@unit('C09', 'infinity is neutral', reach=['end'])
def u3(it):
    W = World(it); c = it.c; P, x, y = W.point('1'); O = EC.INFINITY
    for nm, r in (('P + 0', it.binop('Add', P, O)), ('0 + P', it.binop('Add', O, P))): expect_point(it, W, r, x, y, what=nm)
    c.oblige_by('0 + 0', is_inf(it.binop('Add', O, O)), 'path'); c.oblige_by('2 * 0', is_inf(it.call(it.getattr(O, 'double'))), 'path')
    e = c.fresh('e', 0); c.oblige_by('e * 0', is_inf(it.binop('Mult', O, e)), 'path'); c.oblige_by('e * 0 (left)', is_inf(it.binop('Mult', e, O)), 'path')
@unit('C09', 'equality of points', reach=['end'])
def u3b(it):
    W = World(it); c = it.c; P, x1, y1 = W.point('1'); Q, x2, y2 = W.point('2')
    r = it.truth(it.compare('Eq', P, Q)); e = s_and(s_eq(x1, x2), s_eq(y1, y2)); c.oblige('the same coordinates', e if r else s_not(e))
    c.oblige_by('a finite point is not infinity', it.truth(it.compare('Eq', P, EC.INFINITY)) is False and it.truth(it.compare('Eq', EC.INFINITY, P)) is False, 'path')
    c.oblige_by('infinity equals itself', it.truth(it.compare('Eq', EC.INFINITY, EC.INFINITY)) is True, 'path')
# ---- scalar multiplication, over the contracts of + and double
class Pow2(object):
    """a power of two, given by its exponent; -1 stands for zero where that is allowed"""
    def __init__(self, small, zero=False): self.small, self.zero = small, zero
    def fresh(self, it, name):
        k = it.c.choose(self.small + 1 + self.zero)
        if self.zero and k == self.small + 1: return 0
        return 1 << k if k < self.small else s_mul(1 << k, POW(2, it.c.fresh('log_' + name, 0, record=False)))
    def view(self, it, v):
        if self.zero and isinstance(v, int) and v == 0: return -1
        return log2_of(v) if is_int(v) and not isinstance(v, bool) else None
class Multiple(object):
    """a multiple of P"""
    def fresh(self, it, name): return new_multiple(it, it.c.fresh('multiple', record=False))
    def view(self, it, v): return multiple_of(it, v)
def new_multiple(it, k):
    M = it.c.extra['M']; r = EC.Point.__new__(EC.Point); it.note_alloc(r); M['pts'].append((r, k)); return r
def multiple_of(it, v):
    M = it.c.extra['M']
    for r, k in M['pts']:
        if r is v: return k
    if v is EC.INFINITY: return 0
    if isinstance(v, EC.Point) and v is not M['P']:
        x, y = coords(it, v)
        if is_int(x) and same(x, M['x']):
            if M['W'].zero(s_add(y, M['y'])): return -1
            if M['W'].zero(s_add(y, -M['y'])): return 1
    return None
def minv(it, g, pos):
    j = s_add(g['i'], 1); e3, e = it.c.extra['e3'], it.c.extra['e']
    return [('multiple so far', s_eq(g['result'], s_add(FLO(e3, j), -FLO(e, j)))), ('bits left', s_le(0, g['i']))]
def finite(it, g, pos):
    # x // 1 = x
    for x in (it.c.extra['e3'], it.c.extra['e']): BIT(x, 0)
def mbody(it, g, pos):
    for x in (it.c.extra['e3'], it.c.extra['e']): BIT(x, g['i'])
ML = LoopSpec('double and add', [('i', Pow2(1)), ('result', Multiple())], minv, at_exit=finite, at_body=mbody, variant=lambda it, g: g['i'])
# the plain binary form, most significant bit first
def binv(it, g, pos): return [('multiple so far', s_eq(g['result'], FLO(it.c.extra['e'], s_add(g['i'], 1)))), ('bits left', s_le(-1, g['i']))]
def bfinite(it, g, pos): BIT(it.c.extra['e'], 0)
def bbody(it, g, pos): BIT(it.c.extra['e'], g['i'])
MB = LoopSpec('double and add, plain bits', [('i', Pow2(1, True)), ('result', Multiple())], binv, at_exit=bfinite, at_body=bbody, variant=lambda it, g: s_add(g['i'], 1))
# the binary form, least significant bit first
def rinv(it, g, pos): return [('what is left to add', s_eq(s_add(g['result'], s_mul(g['e'], g['addend'])), it.c.extra['e'])), ('bits left', s_le(0, g['e']))]
def rbody(it, g, pos):
    e, A = g['e'], g['addend']; q, b = s_divmod(e, 2); t = s_mul(2, s_mul(q, A))
    it.c.fact(s_implies(s_eq(b, 0), s_eq(s_mul(e, A), t))); it.c.fact(s_implies(s_eq(b, 1), s_eq(s_mul(e, A), s_add(t, A))))       # e A = 2 q A + b A
MR = LoopSpec('double and add, from the low bits', [('e', Int()), ('addend', Multiple()), ('result', Multiple())], rinv, at_body=rbody, variant=lambda it, g: g['e'])
def LBit(x, zero):
    """the leftmost bit: of x, counted up to above the number or to the number"""
    def linv(it, g, pos):
        j = g['result']; v = it.c.extra[x]
        if not zero: return [('a power of two not above the number', s_le(POW(2, j), v))]
        return [('a power of two not above twice the number', s_or(s_eq(j, 0), s_le(POW(2, s_add(j, -1)) if not isinstance(j, int) else (1 << j) // 2, v)))]
    return LoopSpec('leftmost bit of %s%s' % (x, '' if zero else ', from below'), [('result', Pow2(2))], linv, hint=dict(result=('result',)))
LB = [LBit('e3', True), LBit('e3', False), LBit('e', True), LBit('e', False)]
for how in ('no order', 'with an order', 'with an order and a scalar below it'):
    @unit('C09', 'multiple of a point (%s)' % how, loops=[ML, MB, MR] + LB, unroll=6, reach=['multiple', 'zero'])
    def u4(it, how=how):
        W = World(it); c = it.c; e = c.fresh('e', 0); order = c.fresh('order', 1) if how != 'no order' else None
        if 'below' in how: c.assume(s_lt(e, order))
        er = e if order is None else s_divmod(e, order)[1]
        def k_mul(it, a, kw):
            # inside the constructor: the order times the point is infinity
            if order is not None and is_int(a[1]) and it.c.quick(s_eq(s_divmod(a[1], order)[1], 0)): return EC.INFINITY
            raise Unsupported('other multiple')
        mul = CP(EC.Point, '__mul__'); it.contracts[mul] = k_mul
        x, y = c.fresh('x', 0), c.fresh('y', 0); c.assume(s_lt(x, W.p)); c.assume(s_lt(y, W.p)); W.known.append((x, y))
        P = it.call(EC.Point, [W.cv, x, y] + ([order] if order is not None else []))
        M = dict(P=P, x=x, y=y, pts=[(P, 1)], W=W); c.extra.update(M=M, e=er, e3=s_mul(3, er))
        def k_double(it, a, kw): return new_multiple(it, s_mul(2, mult(it, a[0])))
        def k_add(it, a, kw): return new_multiple(it, s_add(mult(it, a[0]), mult(it, a[1])))
        it.contracts[CP(EC.Point, 'double')] = k_double; it.contracts[CP(EC.Point, '__add__')] = k_add
        r = it.call_body(mul, [P, e])
        k = multiple_of(it, r)
        if not c.oblige_by('a multiple of the point', k is not None, 'shape', repr(r)): return
        c.oblige('as many times as asked (modulo the order)', s_eq(k, er))
        if is_inf(r): c.oblige('infinity only for zero', s_eq(er, 0)); c.reach('zero')
        else: c.reach('multiple')
def mult(it, v):
    k = multiple_of(it, v)
    if k is None: raise Unsupported('arithmetic on another point')
    return k
@unit('C09', 'the scalar may stand on the left', reach=['end'])
def u5(it):
    c = it.c; got = []; e = c.fresh('e', 0); W = World(it); P, x, y = W.point('1')
    it.contracts[CP(EC.Point, '__mul__')] = lambda it, a, kw: got.append(a) or Opaque(('multiple',))
    r = it.binop('Mult', e, P); c.oblige_by('the same product', isinstance(r, Opaque) and len(got) == 1 and got[0][0] is P and same(got[0][1], e), 'path', repr(got))
