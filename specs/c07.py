"""C07: modular inverse, gcd, lcm"""
from .common import *
from pyvc import poly
from nbc.util.ecdsa import numbertheory as N
import functools
from pyvc.interp import SIter
class Coef(object):
    """a coefficient of the extended Euclid loop"""
    def fresh(self, it, name): return it.c.fresh(name, record=False)
    def view(self, it, v): return v if is_int(v) and not isinstance(v, bool) else None
def sgn(it, g):
    """signs alternate, and the coefficients are bounded by the remainders"""
    e = it.c.extra; m = e['m']; c, d, uc, ud = [poly.exact(g[k]) for k in ('c', 'd', 'uc', 'ud')]
    out = []
    for s in (1, -1):
        A, B = s_mul(s, uc), s_mul(-s, ud)
        out.append(s_and(s_le(1, A), s_le(0, B), s_le(B, A), s_eq(s_add(s_mul(A, d), s_mul(B, c)), m), s_or(s_lt(0, g['c']), s_lt(B, A)), s_or(s_le(1, B), s_eq(A, 1))))
    return s_or(*out)
def congruent(it, g, rules):
    e = it.c.extra
    return all(poly.is_zero(s_add(g[x], -s_mul(g['u' + x], e['a'])), e['m'], rules) for x in 'cd')
def facts_at(e, g): return [s_add(g[x], -s_mul(g['u' + x], e['a'])) for x in 'cd']
def unimodular(a, b, new):
    """the new pair generates the same ideal as the pair of atoms (a, b)"""
    rows = [poly.linear(x, a, b) for x in new]
    if None in rows: return False
    (p, q), (r, s) = rows
    d = s_add(s_mul(p, s), -s_mul(q, r))
    return isinstance(d, int) and abs(d) == 1
def inv(it, g, pos):
    e = it.c.extra; h = e.get('head')
    first = h is None and not isinstance(pos, SInt)
    out = [('remainders in order', s_and(s_le(0, g['c']), s_lt(g['c'], g['d']))), ('coefficients', sgn(it, g))]
    if first: out.append(('coefficients express the remainders', congruent(it, g, [])))
    elif h is None or same(pos, h['pos']):
        e['head'] = h = dict(g, pos=pos, rules=facts_at(e, g))
    else:
        out.append(('coefficients express the remainders', congruent(it, g, h['rules'])))
        out.append(('the same common divisors', unimodular(poly.atom_of(h['c']), poly.atom_of(h['d']), (g['c'], g['d']))))
    return out
EU = LoopSpec('euclid', [('c', Int()), ('d', Int()), ('uc', Coef()), ('ud', Coef()), ('vc', Coef()), ('vd', Coef())], inv, optional=('vc', 'vd'), ghost=True, variant=lambda it, g: g['c'])
@unit('C07', 'the inverse', loops=[EU], unroll=6, reach=['inverse', 'refused'])
def u1(it):
    c = it.c; m = c.fresh('m', 2); a = c.fresh('a'); e = c.extra; e.update(m=m, a=a)
    try: r = it.call(N.inverse_mod, [a, m])
    except ProgExc:
        h = e.get('head')
        if not c.oblige_by('refused only after the last remainder is known', h is not None, 'path'): return
        c.oblige('refused: the last remainder divides both numbers and is not 1', s_and(s_eq(h['c'], 0), s_lt(1, h['d']))); c.reach('refused'); return
    h = e.get('head')
    if not is_int(r) or h is None: c.oblige_by('a number', False, 'shape', repr(r)); return
    c.oblige('in range', s_and(s_lt(0, r), s_lt(r, m)))
    poly.oblige_zero(it, 'an inverse', s_add(s_mul(r, a), -1), m, h['rules']); c.reach('inverse')
# ---- gcd
def ginv(it, g, pos):
    e = it.c.extra; h = e.get('head'); a, b = e['ab']; out = [('remainders', s_and(s_le(0, g['a']), s_le(0, g['b'])))]
    if h is None and not isinstance(pos, SInt): out.append(('the numbers', s_or(s_and(s_eq(g['a'], a), s_eq(g['b'], b)), s_and(s_eq(g['a'], b), s_eq(g['b'], a)))))
    elif h is None or same(pos, h['pos']): e['head'] = h = dict(g, pos=pos)
    else: out.append(('the same common divisors', unimodular(poly.atom_of(h['a']), poly.atom_of(h['b']), (g['a'], g['b']))))
    return out
GC = LoopSpec('euclid', [('a', Int()), ('b', Int())], ginv, ghost=True, variant=lambda it, g: g['a'])
@unit('C07', 'gcd of two numbers', loops=[GC], unroll=6, reach=['gcd'])
def u2(it):
    c = it.c; a, b = c.fresh('a', 0), c.fresh('b', 0); e = c.extra; e['ab'] = a, b
    def k_rec(it, x, kw):
        c.oblige('smaller numbers', s_and(s_le(0, x[0]), s_lt(x[0], a), s_le(0, x[1])))
        c.oblige_by('the same common divisors', unimodular(poly.atom_of(a), poly.atom_of(b), x), 'path', repr(x)); e['rec'] = c.fresh('gcd_of_the_smaller', 0, record=False); return e['rec']
    it.contracts[N.gcd2] = k_rec
    r = it.call_body(N.gcd2, [a, b]); h = e.get('head')
    if 'rec' in e: c.oblige('the result is that of the smaller numbers', it.eqb(r, e['rec'])); c.reach('gcd'); return
    if not is_int(r): c.oblige_by('a number', False, 'shape', repr(r)); return
    if h is None: c.oblige('gcd of simple numbers', s_or(s_and(s_eq(a, 0), s_eq(r, b)), s_and(s_eq(b, 0), s_eq(r, a)))); return
    c.oblige('one remainder is zero and the other is the result', s_or(s_and(s_eq(h['a'], 0), s_eq(r, h['b'])), s_and(s_eq(h['b'], 0), s_eq(r, h['a'])))); c.reach('gcd')
def gcd_of(a, b):
    """the greatest common divisor of two numbers"""
    from pyvc import core
    c = core.CUR; a, b = c.norm(a), c.norm(b)
    if a is b or isinstance(a, SInt) and isinstance(b, SInt) and a.key() == b.key(): return a
    x, y = sorted([a, b], key=lambda v: repr(c._k(v)))
    g, new = c.atom2(('gcd', x, y), 'gcd')
    if new:
        c.fact(s_le(0, g)); c.fact(s_implies(s_eq(x, 0), s_eq(g, y))); c.fact(s_implies(s_eq(y, 0), s_eq(g, x))); c.fact(s_implies(s_or(s_lt(0, x), s_lt(0, y)), s_lt(0, g)))
    return g
def k_gcd2(it, a, kw): return gcd_of(a[0], a[1])
LISTS = {N.gcd2: k_gcd2}
for n in (2, 3, 4):
    @unit('C07', 'gcd of %d numbers given one by one' % n, contracts=LISTS, reach=['end'])
    def u3(it, n=n):
        c = it.c; x = [c.fresh('x%d' % i, 0) for i in range(n)]; w = x[0]
        for v in x[1:]: w = gcd_of(w, v)
        c.oblige('folded', it.eqb(it.call(N.gcd, x), w))
def so_far(which, S, k):
    """the first k numbers of the list combined; of none: what changes nothing"""
    from pyvc import core
    c = core.CUR; k = c.norm(k); none = 1 if which == 'lcm' else 0
    if isinstance(k, int) and k == 0: return none
    r, new = c.atom2(('fold', which, k), 'so_far')
    if new:
        for k2, r2 in c.memo.setdefault('folds', []): c.fact(s_implies(s_eq(k, k2), s_eq(r, r2)))
        c.memo['folds'].append((k, r)); c.fact(s_le(none, r)); c.fact(s_implies(s_eq(k, 0), s_eq(r, none))); c.fact(s_implies(s_eq(k, 1), s_eq(r, rindex(S, 0))))
    return r
def combined(which, a, b): return gcd_of(a, b) if which == 'gcd' else lcm_of(a, b)
def fold(which):
    def rule(it, f, s, init):
        c = it.c; S = s.key[1] if s.key[0] == 'rope' else None
        if S is None or init or not c.entails(it.eqb(norm('l', segs_of(S)), c.extra['S'])): raise Unsupported('fold')
        acc = c.fresh('acc', 1 if which == 'lcm' else 0, record=False); i = c.fresh('i', 1, record=False); c.assume(s_lt(i, s.n)); x = rindex(S, i)
        c.oblige('each step combines the result so far with the next number', it.eqb(it.call(f, [acc, x]), combined(which, acc, x))); c.reach('folded')
        return so_far(which, S, s.n)
    return rule
def off(it): return s_add(it.c.extra['n'], -it.cur_count)
def steps(which):
    """a loop over the list, or over the rest of it"""
    def over(it, seq, s):
        e = it.c.extra
        if seq is None: return False
        for d in (0, 1):
            if it.c.entails(s_eq(s_add(seq.n if isinstance(seq, SIter) else it.call(len, [seq]), d), e['n'])): return True
        return False
    def seen(it, g, pos):
        c = it.c; e = c.extra; k = s_add(pos, off(it)); c.reach('folded')
        c.fact(s_eq(so_far(which, e['S'], s_add(k, 1)), combined(which, so_far(which, e['S'], k), rindex(e['S'], k))))
    return [LoopSpec('the numbers combined', [('result', SoFar(which))], lambda it, g, pos: [], guard=over, at_body=seen)]
class SoFar(object):
    """the numbers up to pos combined; None is allowed before the first one"""
    def __init__(self, which): self.which, self.none = which, False
    def at(self, it, pos):
        if self.none and it.c.decide(s_eq(pos, 0)): return None
        e = it.c.extra; return so_far(self.which, e['S'], s_add(pos, off(it)))
    def fresh_at(self, it, name, pos): return self.at(it, pos)
    def view(self, it, v): return (v,) if v is None or is_int(v) and not isinstance(v, bool) else None
    def check(self, it, v, pos):
        if isinstance(pos, int) and pos == 0: self.none = v[0] is None
        if self.none and v[0] is None: return s_eq(pos, 0)
        return it.eqb(v[0], so_far(self.which, it.c.extra['S'], s_add(pos, off(it))))
class Nums(Sym): pass
def nums(it, lo):
    c = it.c; n = c.fresh('n', 1); S = Sym('numbers', n, lo, None); s = norm('l', [('A', S, 0, n)]); c.inputs['n'] = n; c.extra.update(S=s, n=n); return s
@unit('C07', 'gcd of a list', contracts=LISTS, reduce_rule=fold('gcd'), loops=steps('gcd'), reach=['end', 'folded'])
def u4(it):
    c = it.c; xs = nums(it, 0); r = it.call(N.gcd, [xs])
    c.oblige('the fold over the list', it.eqb(r, so_far('gcd', c.extra['S'], c.extra['n'])))
@unit('C07', 'gcd of one number', reach=['end'])
def u5(it): a = it.c.fresh('a', 0); it.c.oblige('itself', it.eqb(it.call(N.gcd, [a]), a))
# ---- lcm
def k_gcd(it, a, kw):
    if len(a) != 2: raise Unsupported('gcd of more')
    g = it.c.extra.get('g'); x = it.c.extra['xy']
    if g is None or not it.c.entails(s_or(s_and(s_eq(a[0], x[0]), s_eq(a[1], x[1])), s_and(s_eq(a[0], x[1]), s_eq(a[1], x[0])))): raise Unsupported('gcd of other numbers')
    return g
@unit('C07', 'lcm of two numbers', contracts={N.gcd: k_gcd, N.gcd2: k_gcd}, reach=['end'])
def u6(it):
    # a = g*u and b = g*v with g the gcd; the least common multiple is g*u*v
    c = it.c; g, u, v = c.fresh('g', 1), c.fresh('u', 1), c.fresh('v', 1); a, b = s_mul(g, u), s_mul(g, v); c.extra.update(g=g, xy=(a, b))
    c.oblige('gcd times the coprime parts', it.eqb(it.call(N.lcm2, [a, b]), s_mul(g, s_mul(u, v))))
def lcm_of(a, b):
    from pyvc import core
    c = core.CUR; x, y = sorted([a, b], key=lambda v: repr(c._k(v))); g, new = c.atom2(('lcm', x, y), 'lcm')
    if new: c.fact(s_le(1, g)); c.fact(s_implies(s_eq(x, 1), s_eq(g, y))); c.fact(s_implies(s_eq(y, 1), s_eq(g, x)))
    return g
LL = {N.lcm2: lambda it, a, kw: lcm_of(a[0], a[1])}
for n in (2, 3, 4):
    @unit('C07', 'lcm of %d numbers given one by one' % n, contracts=LL, reach=['end'])
    def u7(it, n=n):
        c = it.c; x = [c.fresh('x%d' % i, 1) for i in range(n)]; w = x[0]
        for v in x[1:]: w = lcm_of(w, v)
        c.oblige('folded', it.eqb(it.call(N.lcm, x), w))
@unit('C07', 'lcm of a list', contracts=LL, reduce_rule=fold('lcm'), loops=steps('lcm'), reach=['end', 'folded'])
def u8(it):
    c = it.c; xs = nums(it, 1); r = it.call(N.lcm, [xs])
    c.oblige('the fold over the list', it.eqb(r, so_far('lcm', c.extra['S'], c.extra['n'])))
@unit('C07', 'lcm of one number', reach=['end'])
def u9(it): a = it.c.fresh('a', 1); it.c.oblige('itself', it.eqb(it.call(N.lcm, [a]), a))
