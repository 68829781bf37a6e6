"""C08: Jacobi symbols and modular square roots

Trusted mathematics (axioms): J(a, n) depends on a modulo n; J(0, n) = 0 and J(1, n) = 1; J(2a, n) = J(2, n) J(a, n) and
J(2, n) = 1 exactly for n = 1, 7 mod 8; quadratic reciprocity; Euler's criterion a**((p-1)/2) = J(a, p) mod p; x**2 = 1 mod p
only for x = 1, p-1; for J(a, p) = 1 there is b in [2, p) with J(b*b-4a, p) = -1 when p = 1 mod 8, and then
x**((p+1)/2) modulo x**2 - b x + a is a constant whose square is a."""
from .common import *
from pyvc import poly
from nbc.util.ecdsa import numbertheory as N
AX = 'number theory: quadratic reciprocity with its supplements, Euler criterion, square roots of 1, Cipolla (field with p**2 elements)'
def J(it, a, n):
    """the Jacobi symbol, as a function of a mod n"""
    c = it.c; a = s_divmod(a, n)[1]
    j, new = c.atom2(('jacobi', a, n), 'J')
    if new:
        c.fact(s_and(s_le(-1, j), s_le(j, 1)))
        if isinstance(a, int) and a in (0, 1): c.fact(s_eq(j, a))
        else: c.fact(s_implies(s_eq(a, 0), s_eq(j, 0))); c.fact(s_implies(s_eq(a, 1), s_eq(j, 1)))
        for (a2, n2, j2) in c.memo.setdefault('jacobis', []):
            if not isinstance(n, int) and not isinstance(n2, int) and n.key() == n2.key(): c.fact(s_implies(s_eq(a, a2), s_eq(j, j2)))
        c.memo['jacobis'].append((a, n, j))
    return j
def times(sign, j, k): return s_or(s_and(sign, s_eq(j, k)), s_and(s_not(sign), s_eq(j, s_mul(-1, k))))
def tinv(it, g, pos):
    e = it.c.extra; c = it.c; n, a = e['n'], e['a']; one = e['two'] == 1; h = e.get('head'); a1 = g['a1']
    out = [('a positive part of the number', s_and(s_le(1, a1), s_lt(a1, n))), ('twos counted', s_le(0, g['e']))]
    if isinstance(pos, SInt) and h is not None and not same(pos, h['pos']):
        # J(2x, n) = J(2, n) J(x, n)
        if c.quick(s_eq(h['a1'], s_mul(2, a1))): c.fact(times(one, J(it, h['a1'], n), J(it, a1, n)))
    elif isinstance(pos, SInt): e['head'] = dict(g, pos=pos)
    even = s_eq(s_divmod(g['e'], 2)[1], 0)
    return out + [('the symbol, up to the sign of the twos taken out', times(s_or(one, even), J(it, a, n), J(it, a1, n)))]
TW = LoopSpec('twos', [('a1', Int()), ('e', Int())], tinv, ghost=True, variant=lambda it, g: g['a1'])
def tsinv(it, g, pos):
    e = it.c.extra; c = it.c; n, a = e['n'], e['a']; one = e['two'] == 1; h = e.get('head'); a1 = g['a1']
    if isinstance(pos, SInt) and h is not None and not same(pos, h['pos']):
        if c.quick(s_eq(h['a1'], s_mul(2, a1))): c.fact(times(one, J(it, h['a1'], n), J(it, a1, n)))
    elif isinstance(pos, SInt): e['head'] = dict(g, pos=pos)
    return [('a positive part of the number', s_and(s_le(1, a1), s_lt(a1, n))),
            ('the symbol, up to the sign so far', s_or(s_and(s_eq(g['s'], 1), times(True, J(it, a, n), J(it, a1, n))), s_and(s_eq(g['s'], -1), times(False, J(it, a, n), J(it, a1, n)))))]
class Sign(Int):
    def fresh(self, it, name): return 1 - 2 * it.c.choose(2)
TWS = LoopSpec('twos', [('a1', Int()), ('s', Sign())], tsinv, ghost=True, variant=lambda it, g: g['a1'])
for r in (1, 3, 5, 7):
    @unit('C08', 'the Jacobi symbol for n = %d mod 8' % r, loops=[TW, TWS], unroll=6, reach=['symbol', 'reduced'])
    def u1(it, r=r):
        c = it.c; c.trust(AX); t = c.fresh('t', 0); n = s_add(s_mul(8, t), r); c.assume(s_le(3, n)); a = c.fresh('a'); c.inputs['n'] = n
        e = c.extra; e.update(n=n, a=s_divmod(a, n)[1], two=1 if r in (1, 7) else -1)
        def k_rec(it, x, kw):
            b, m = x
            c.oblige('the symbol asked for is defined', s_and(s_le(3, m), s_eq(s_divmod(m, 2)[1], 1))); c.oblige('and smaller', s_lt(m, n)); c.reach('reduced')
            j = J(it, b, m); h = e.get('head')
            if c.quick(s_eq(s_divmod(b, m)[1], s_divmod(n, m)[1])):
                c.fact(s_eq(j, J(it, n, m)))
                both3 = s_and(s_eq(s_divmod(n, 4)[1], 3), s_eq(s_divmod(m, 4)[1], 3))
                c.fact(times(s_not(both3), J(it, m, n), J(it, n, m)))          # reciprocity
            return j
        it.contracts[N.jacobi] = k_rec
        w = J(it, a, n); J(it, 1, n)
        c.oblige('Jacobi symbol', it.eqb(it.call_body(N.jacobi, [a, n]), w)); c.reach('symbol')
# ---- polynomials modulo x^2 - b x + a
def elems(it, v, n):
    return v if isinstance(v, (list, tuple)) and len(v) == n and all(is_int(x) for x in v) else None
for la, lb in ((2, 2), (1, 2), (2, 1), (1, 1)):
    @unit('C08', 'product of polynomials of %d and %d coefficients' % (la, lb), reach=['end'])
    def u2(it, la=la, lb=lb):
        c = it.c; p = c.fresh('p', 3); a, b = c.fresh('f0'), c.fresh('f1')
        x = [c.fresh('x%d' % i, 0) for i in range(la)]; y = [c.fresh('y%d' % i, 0) for i in range(lb)]
        for v in x + y: c.assume(s_lt(v, p))
        r = it.call(N.polynomial_multiply_mod, [list(x), list(y), (a, b, 1), p]); r = elems(it, r, la + lb - 1 if la + lb < 4 else 2)
        if not c.oblige_by('number of coefficients', r is not None, 'shape', repr(r)): return
        X, Y = x + [0] * (2 - la), y + [0] * (2 - lb); t2 = s_mul(X[1], Y[1])
        w = [s_add(s_mul(X[0], Y[0]), -s_mul(a, t2)), s_add(s_add(s_mul(X[0], Y[1]), s_mul(X[1], Y[0])), -s_mul(b, t2))]
        zero = [t2] if c.quick(s_eq(s_divmod(t2, p)[1], 0)) else []
        for i, v in enumerate(r): poly.oblige_zero(it, 'coefficient %d' % i, s_add(v, -w[i]), p, zero); c.oblige('coefficient %d reduced' % i, s_and(s_le(0, v), s_lt(v, p)))
class Power(SObj):
    """x**e modulo the polynomial"""
    def __init__(self, e): self.e = e
class PK_(object):
    def fresh(self, it, name): return Power(it.c.fresh('e_' + name, 0, record=False))
    def view(self, it, v):
        if isinstance(v, Power): return v.e
        if isinstance(v, (list, tuple)) and len(v) == 1 and v[0] == 1: return 0
        return None
def pinv(it, g, pos):
    # the low bit of k is already in s; the bits above it are not
    k = g['k']; c = it.c
    if isinstance(k, SInt) and not c.quick(s_eq(s_divmod(k, 2)[1], 0)) and not c.quick(s_eq(s_divmod(k, 2)[1], 1)): raise Unsupported('parity not known')
    par = 0 if c.quick(s_eq(s_divmod(k, 2)[1], 0)) else 1
    return [('the bits not used yet', s_le(1, k)), ('exponent so far', s_eq(s_add(s_mul(g['G'], s_add(k, -par)), g['s']), c.extra['N']))]
class Bits(Int):
    def fresh(self, it, name): return s_add(s_mul(2, it.c.fresh(name + '_high', 0, record=False)), it.c.choose(2))
def pinv0(it, g, pos): return [('the bits not used yet', s_le(0, g['k'])), ('exponent so far', s_eq(s_add(s_mul(g['G'], g['k']), g['s']), it.c.extra['N']))]
PW0 = LoopSpec('squarings', [('k', Bits()), ('G', PK_()), ('s', PK_())], pinv0, variant=lambda it, g: g['k'])
PW = LoopSpec('squarings', [('k', Bits()), ('G', PK_()), ('s', PK_())], pinv, variant=lambda it, g: g['k'])
@unit('C08', 'power of a polynomial by squaring', loops=[PW, PW0], unroll=6, reach=['power', 'end'])
def u3(it):
    c = it.c; p = c.fresh('p', 3); e = c.fresh('exponent', 0); c.assume(s_lt(e, p)); c.extra['N'] = e; f = Opaque(('polymod',))
    def k_mul(it, a, kw):
        x, y = PK_().view(it, a[0]), PK_().view(it, a[1])
        if x is None or y is None: raise Unsupported('product of other polynomials')
        c.oblige_by('modulo the same polynomial', a[2] is f and same(a[3], p), 'path'); return Power(s_add(x, y))
    it.contracts[N.polynomial_multiply_mod] = k_mul
    r = PK_().view(it, it.call(N.polynomial_exp_mod, [Power(1), e, f, p]))
    if not c.oblige_by('a power', r is not None, 'shape'): return
    c.oblige('the power asked for', s_eq(r, e)); c.reach('power')
# ---- square roots
def formal(it, P, a):
    """P as a sum of k * 2**x * a**y * rest with exponents x and y"""
    c = it.c; P = c.norm(P); out = []; ai = poly.atom_of(a)
    for m, k in (P.t.items() if isinstance(P, SInt) else [((), P)]):
        x, y, rest = 0, 0, []
        while k and k % 2 == 0: k //= 2; x += 1
        for i in m:
            key = c.atoms[i].key
            if i == ai: y = s_add(y, 1)
            elif key[0] == 'powmod' and same(key[3], c.extra['p']):
                b, ex = c.norm(key[1]), key[2]
                if not (isinstance(b, SInt) and len(b.t) == 1): rest.append(i); continue
                (bm, bk), = b.t.items()
                z = 0
                while bk % 2 == 0: bk //= 2; z += 1
                if bk != 1 or bm != (ai,): rest.append(i); continue
                x = s_add(x, s_mul(z, ex)); y = s_add(y, ex)
            else: rest.append(i)
        out.append((k, x, y, tuple(rest)))
    return out
def lower(ex, rel, t):
    """take the exponent rel out of ex as often as its coefficient of t allows"""
    ti = poly.atom_of(t); n = 0
    co = lambda e: e.t.get((ti,), 0) if isinstance(e, SInt) else 0
    while co(ex) >= co(rel) > 0: ex = s_add(ex, -rel); n += 1
    return ex, n
def is_root(it, r, a, t, rel2, rela):
    """r**2 = a modulo p, by the laws of exponents and  2**rel2[0] = rel2[1],  a**rela[0] = rela[1]"""
    acc = {}
    r = poly.exact(r, it.c.extra['p'])
    for k, x, y, rest in formal(it, s_mul(r, r), a):
        x, n = lower(x, rel2[0], t); k *= rel2[1] ** n
        y, n = lower(y, rela[0], t); k *= rela[1] ** n
        key = (repr(it.c._k(x)), repr(it.c._k(y)), rest); acc[key] = acc.get(key, 0) + k
    return {k: v for k, v in acc.items() if v} == {(repr(0), repr(1), ()): 1}
def jac(it, a, kw):
    c = it.c; c.oblige('the symbol asked for is defined', s_and(s_le(3, a[1]), s_eq(s_divmod(a[1], 2)[1], 1))); return J(it, a[0], a[1])
ROOT = {N.jacobi: jac}
def sqrt(it, p, t, rel2, ea, extra=None):
    c = it.c; c.trust(AX); c.inputs['p'] = p; a = c.fresh('a', 0); c.assume(s_lt(a, p)); e = c.extra; e.update(p=p, a=a)
    c.trust('p is a prime'); j = J(it, a, p); c.fact(s_implies(s_le(1, a), s_not(s_eq(j, 0))))
    if extra: extra(a, j)
    try: r = it.call(N.square_root_mod_prime, [a, p])
    except ProgExc as x:
        c.oblige('an error only when there is no root', s_eq(j, -1)); c.oblige_by('the square-root error', isinstance(x.exc, N.SquareRootError), 'path', repr(x.exc)); c.reach('no root'); return
    c.oblige('a root only when there is one', s_not(s_eq(j, -1)))
    if not c.oblige_by('a number', is_int(r), 'shape', repr(r)): return
    c.oblige('reduced', s_and(s_le(0, r), s_lt(r, p)))
    if c.decide(s_eq(a, 0)): c.oblige('root of zero', s_eq(r, 0)); c.reach('zero'); return
    c.reach('root'); return a, r
@unit('C08', 'square roots for p = 3 mod 4', contracts=ROOT, reach=['root', 'no root', 'zero'])
def u4(it):
    c = it.c; t = c.fresh('t', 0); p = s_add(s_mul(4, t), 3); x = sqrt(it, p, t, None, None)
    if x: c.oblige_by('the square is a', is_root(it, x[1], x[0], t, (s_add(s_mul(2, t), 1), 1), (s_add(s_mul(2, t), 1), 1)), 'laws of exponents', repr(x[1]))
def hook5(it, r, b, e, m):
    # (a**((p-1)/4))**2 = a**((p-1)/2) = 1, so it is 1 or p-1
    c = it.c; x = c.extra
    if same(m, x['p']) and is_int(b) and it.c.quick(s_eq(b, x['a'])) and same(s_mul(4, e), s_add(m, -1)): c.fact(s_implies(s_eq(J(it, x['a'], m), 1), s_or(s_eq(r, 1), s_eq(r, s_add(m, -1))))); x['d'] = r
@unit('C08', 'square roots for p = 5 mod 8', contracts=ROOT, powmod_hook=hook5, reach=['root', 'no root', 'zero'])
def u5(it):
    c = it.c; t = c.fresh('t', 0); p = s_add(s_mul(8, t), 5); x = sqrt(it, p, t, None, None)
    if x:
        q = s_add(s_mul(2, t), 1); d = c.atom2(('powmod', x[0], q, p), 'pm')[0]; hook5(it, d, x[0], q, p)
        if c.decide(s_eq(d, 1)): s = 1
        else: c.oblige('the fourth root of 1 is 1 or -1', s_eq(d, s_add(p, -1))); s = -1
        c.oblige_by('the square is a', is_root(it, x[1], x[0], t, (s_add(s_mul(4, t), 2), -1), (q, s)), 'laws of exponents', repr(x[1]))
def binv(it, g, pos): return [('the b that works is not passed', s_le(s_add(2, pos), it.c.extra['B']))]
BL = LoopSpec('candidates', [], binv)
BW = LoopSpec('candidates by hand', [('b', Int())], lambda it, g, pos: [('the b that works is not passed', s_and(s_le(2, g['b']), s_le(g['b'], it.c.extra['B'])))], guard=lambda it, seq, s: seq is None, variant=lambda it, g: s_add(it.c.extra['B'], s_add(-g['b'], 1)))
@unit('C08', 'square roots for p = 1 mod 8', contracts=ROOT, loops=[BL, BW], unroll=4, reach=['root', 'no root', 'zero'])
def u6(it):
    c = it.c; t = c.fresh('t', 2); p = s_add(s_mul(8, t), 1); e = c.extra
    def extra(a, j):
        B = c.fresh('B', 2, record=False); c.assume(s_lt(B, p)); c.fact(s_implies(s_eq(j, 1), s_eq(J(it, s_add(s_mul(B, B), s_mul(-4, a)), p), -1))); e['B'] = B
    def k_jac(it, x, kw):
        r = jac(it, x, kw); B, a = e.get('B'), e.get('a')
        d = c.norm(s_add(x[0], s_mul(4, a)))
        if isinstance(d, SInt) and B is not None:       # d = b*b for the b of this iteration
            for b in [SInt({m[:1]: 1}) for m in d.t if len(m) == 2 and m[0] == m[1]]:
                d2 = s_add(d, -s_mul(b, b)); k = d2.t.get(b_key(b), 0) if isinstance(d2, SInt) else 0
                if isinstance(k, int) and k % 2 == 0:
                    bb = s_add(b, k // 2)
                    if same(s_mul(bb, bb), d): c.fact(s_implies(s_eq(bb, B), s_eq(r, J(it, s_add(s_mul(B, B), s_mul(-4, a)), p)))); e['b'] = bb
        return r
    it.contracts[N.jacobi] = k_jac
    def k_exp(it, x, kw):
        base, ex, f, m = x; a, b = e['a'], e.get('b')
        ok = list(base) == [0, 1] and same(s_mul(2, ex), s_add(p, 1)) and same(m, p) and len(f) == 3 and b is not None and same(f[1], s_mul(-1, b)) and same(f[0], a) and same(f[2], 1)
        c.oblige_by('the power x**((p+1)/2) modulo x**2 - b*x + a', ok, 'path', repr(x))
        if not ok: raise PathEnd()
        c.oblige('b*b - 4a is no square', s_eq(J(it, s_add(s_mul(b, b), s_mul(-4, a)), p), -1)); c.oblige('a is a square', s_eq(J(it, a, p), 1)); c.oblige('exponent allowed', s_lt(ex, p))
        r = c.fresh('root', 0, record=False); c.fact(s_lt(r, p)); e['r'] = r; return [r, 0]
    it.contracts[N.polynomial_exp_mod] = k_exp
    x = sqrt(it, p, t, None, None, extra)
    if x: c.oblige_by('the constant of the power', 'r' in e and same(x[1], e['r']), 'path', repr(x[1]))
def b_key(b): (m,), = [tuple(b.t)]; return m
