"""C16: random and seeded secrets"""
from .common import *
from .c06 import k_orderlen
from pyvc.absl import AObj, Fn
from nbc.util.ecdsa import util as U, curves, keys as K
import os, math
class Draws(SObj):
    """an entropy source: any bytes of the length asked for"""
    s_logs = True
    def __init__(self, order): self.order, self.last, self.all = order, None, []
    def s_call(self, it, a, kw):
        c = it.c
        c.oblige_by('asked for a number of bytes', len(a) == 1 and not kw and is_int(a[0]), 'path')
        c.oblige('blocks of the minimal byte length', s_eq(a[0], ndigits(256, self.order)))
        self.rejected(it)
        k = c.extra['draw'] = c.extra.get('draw', 0) + 1
        b = whole(Sym('block%d' % k, a[0])); self.last = b; return b
    def rejected(self, it):
        if self.last is not None: it.c.oblige('the first block in range is taken', s_le(self.order, s_add(val(self.last), 1)))
RL = LoopSpec('attempts', [('left', Int(0))], lambda it, g, pos: [('the block drawn was out of range', s_le(it.c.extra['D'].order, s_add(val(it.c.extra['D'].last), 1)) if it.c.extra['D'].last is not None else True)],
    variant=lambda it, g: g['left'], hint=dict(left=('dont_try_forever',)), guard=lambda it, seq, s: seq is None)
RF = LoopSpec('attempts counted', [], RL.inv)
for how in ('given', 'default', 'from a key'):
    @unit('C16', 'a random secret (entropy source: %s)' % how, loops=[RL, RF], contracts={curves.orderlen: k_orderlen}, reach=['secret', 'given up'], spec_concrete_for=True)
    def u1(it, how=how):
        c = it.c; order = c.fresh('order', 2); D = Draws(order); c.extra['D'] = D
        if how == 'from a key':
            # SigningKey.generate takes its secret from randrange with the order of its curve
            cv = AObj(order=order); made = []
            def k_from(it, a, kw): made.append(a[1]); return Opaque(('key',))
            it.contracts[K.SigningKey.from_secret_exponent.__func__] = k_from
            run = lambda: (it.call(K.SigningKey.generate, [], dict(curve=cv, entropy=D)), made[0])[1]
        elif how == 'given': run = lambda: it.call(U.randrange, [order, D])
        else:
            it.contracts[os.urandom] = lambda it, a, kw: D.s_call(it, a, kw); run = lambda: it.call(U.randrange, [order])
        try: r = run()
        except ProgExc as e: D.rejected(it); c.oblige_by('gives up with an error', isinstance(e.exc, RuntimeError), 'path', repr(e.exc)); c.reach('given up'); return
        if not c.oblige_by('a block was drawn', D.last is not None, 'path'): return
        c.oblige('one more than the value of the block', it.eqb(r, s_add(val(D.last), 1))); c.oblige('in range', s_and(s_le(1, r), s_lt(r, order))); c.reach('secret')
# ---- seeded generators
class Gen(SObj):
    """the pseudo-random bytes of a seed, from position q"""
    s_logs = True
    def __init__(self, S): self.S, self.q = S, 0
    def s_getattr(self, it, a): return getattr(self, a)
    def s_setattr(self, it, a, v): it.log_write(self, a); setattr(self, a, v)
def k_next(it, a, kw):
    if not isinstance(a[0], Gen): raise Unsupported('next')
    g = a[0]; q = g.q; it.setattr(g, 'q', s_add(q, 1)); return g.S.elem(q)
def take(it, src, seq, elem):
    g = it.c.extra.get('gen')
    if g is None or seq.key[0] == 'keys': return None
    q = g.q; e = elem(it.c.fresh('any', 0, record=False))
    if not is_int(e) or not same(e, S_elem(g, q)) or not same(g.q, s_add(q, 1)): raise Unsupported('pseudo-random bytes drawn in another way')
    it.setattr(g, 'q', s_add(q, seq.n)); return norm('l', [('A', g.S, q, seq.n)])
def S_elem(g, q): return g.S.elem(q)
def text(seed, counter): return rcat('prng-', mk_pos(10, 'dec', counter, ndigits(10, counter), kind='s'), '-', seed)
YL = LoopSpec('blocks', [('counter', Defined('int', lambda it, p: p))], lambda it, g, pos: [], ghost=True, at_body=lambda it, g, pos: it.c.extra.update(block=pos, j=0))
class Stop(Exception): pass
@unit('C16', 'the pseudo-random bytes are those of the blocks of the seed, in order', loops=[YL], reach=['loop blocks body'])
def u2(it):
    c = it.c; n = c.fresh('n_seed', 0); seed = whole(Sym('seed', n, 0, 127), 's'); c.inputs['seed'] = seed
    def yielded(it, v):
        j = c.extra['j']; c.extra['j'] = j + 1
        if j >= 32: c.oblige_by('32 bytes of a block', False, 'path'); raise PathEnd()
        d = app('sha256', [whole_bytes(text(seed, c.extra['block']))], 32)
        oblige_eq(it, 'byte %d of the block' % j, v, rindex(d, j))
    c.extra['yield'] = yielded
    try: it.call_body(U.PRNG.block_generator, [Opaque(('prng',)), seed])
    finally:
        if 'block' in c.extra: c.oblige_by('32 bytes of every block', c.extra['j'] == 32, 'path', repr(c.extra['j']))
def whole_bytes(t): return norm('b', segs_of(t))
SEED = {U.PRNG.block_generator: lambda it, a, kw: it.c.extra['gen'] if it.truth(it.eqb(a[1], it.c.extra['seed'])) else Opaque(('other seed',)), curves.orderlen: k_orderlen, next: k_next}
BIG = 1 << 2900
class Log(SObj):
    """math.log(n, 2) as a float: not negative; rounded down it is the number of bits of n less one, or (where the float is rounded up to
    the next integer) the number of bits"""
    _cls = float
    def __init__(self, fl): self.fl = fl
    def s_binop(self, it, op, l, r):
        o = r if l is self else l
        if op == 'Add' and isinstance(o, int): return Log(s_add(self.fl, o))
        raise Unsupported('float arithmetic')
    def s_int(self, it, base): return self.fl
def k_log(it, a, kw):
    c = it.c
    if len(a) != 2 or a[1] != 2 or not is_int(a[0]) or not c.decide(s_le(1, a[0])): raise Unsupported('another logarithm')
    f, new = c.atom2(('log2', a[0]), 'log2'); c.trust('math.log(n, 2) for 1 <= n < 2**2900 rounded down is the number of bits of n less one, or the number of bits (accuracy of floats); not negative for larger n')
    if new:
        c.fact(s_le(0, f)); n = ndigits(2, a[0]); c.fact(s_implies(s_lt(a[0], BIG), s_and(s_le(s_add(n, -1), f), s_le(f, n))))
    return Log(f)
@unit('C16', 'bits and bytes of an order', contracts={math.log: k_log}, reach=['end'])
def u5(it):
    c = it.c; order = c.fresh('order', 2); c.assume(s_lt(order, BIG)); b, y, e = it.to_list(it.call(U.bits_and_bytes, [order]))
    c.oblige('every smaller number has at most that many bits', s_lt(s_add(order, -1), POW(2, b))); q, r = s_divmod(b, 8); c.oblige('whole bytes', s_eq(y, q)); c.oblige('bits over', s_eq(e, r))
@unit('C16', 'bits and bytes of any order', contracts={math.log: k_log}, reach=['end'])
def u5b(it):
    c = it.c; order = c.fresh('order', 2); b, y, e = it.to_list(it.call(U.bits_and_bytes, [order]))
    c.oblige('some', s_le(1, b)); q, r = s_divmod(b, 8); c.oblige('whole bytes', s_eq(y, q)); c.oblige('bits over', s_eq(e, r))
def width2(it, order):
    """(whole bytes, bits over): the width of a block (every number of bits over is a case)"""
    c = it.c
    if 'w2' not in c.extra:
        b, e = c.fresh('n_bytes', 0, record=False), c.choose(8); c.assume(s_lt(0, s_add(b, e))); c.extra['w2'] = (b, e)
        c.fact(s_implies(s_lt(order, BIG), s_lt(s_add(order, -1), POW(2, s_add(s_mul(8, b), e)))))
    return c.extra['w2']
def k_bits(it, a, kw):
    c = it.c; c.trust('contract of bits_and_bytes (proved above)')
    if not it.truth(it.eqb(a[0], c.extra['order'])): raise Unsupported('bits of another number')
    b, e = width2(it, a[0]); return (s_add(s_mul(8, b), e), b, e)
def k_log_w(it, a, kw):
    """the logarithm that gives the width"""
    c = it.c; c.trust('contract of bits_and_bytes (proved above)')
    if len(a) != 2 or a[1] != 2 or not it.truth(it.eqb(a[0], s_add(c.extra['order'], -1))): raise Unsupported('another logarithm')
    b, e = width2(it, c.extra['order']); return Log(s_add(s_add(s_mul(8, b), e), -1))
def clipped(S, q, b, e):
    """a block of b whole bytes and e bits from position q: the excess top bits of its first byte are cleared"""
    if not e: return norm('b', [('A', S, q, b)])
    return rcat(mk_pos(256, None, s_divmod(S.elem(q), 1 << e)[1], 1), norm('b', [('A', S, s_add(q, 1), b)]))
def seeded(it):
    c = it.c; seed = whole(Sym('seed', c.fresh('n_seed', 0), 0, 127), 's'); S = Sym('prng', c.fresh('far', 0, record=False)); g = Gen(S); c.extra.update(gen=g, seed=seed, loop_lvs=[(g, 'q')])
    return seed, S, g
@unit('C16', 'overshoot and modulo', contracts=SEED, comp_rule=take, reach=['end'])
def u3(it):
    c = it.c; order = c.fresh('order', 2); seed, S, g = seeded(it); L = ndigits(256, order)
    r = it.call(U.randrange_from_seed__overshoot_modulo, [seed, order])
    c.oblige('in range', s_and(s_le(1, r), s_lt(r, order)))
    c.oblige('a function of the seed and the order', it.eqb(r, s_add(s_divmod(val(norm('b', [('A', S, 0, s_mul(2, L))])), s_add(order, -1))[1], 1)))
def _tl(it, g, pos):
    c = it.c; b, e = c.extra['w2']; w = _blocklen(it); out = []
    if not (isinstance(pos, int) and pos == 0) and not c.decide(s_eq(pos, 0)): out.append(('the block drawn was out of range', s_le(c.extra['order'], s_add(val(clipped(c.extra['S'], s_mul(w, s_add(pos, -1)), b, e)), 1))))
    return out
def _blocklen(it): b, e = it.c.extra['w2']; return s_add(b, 1 if e else 0)
TL = LoopSpec('guesses', [('q', Defined('int', lambda it, p: s_mul(_blocklen(it), p)))], _tl, hint=dict(q=('.q',)), ghost=True, at_body=lambda it, g, pos: it.c.extra.update(block=pos))
@unit('C16', 'try and try again', contracts={**SEED, U.bits_and_bytes: k_bits, math.log: k_log_w}, loops=[TL], comp_rule=take, reach=['secret'], max_forks=200, time=60)
def u4(it):
    c = it.c; order = c.fresh('order', 2); seed, S, g = seeded(it); c.extra.update(order=order, S=S); b, e = width2(it, order)
    r = it.call(U.randrange_from_seed__trytryagain, [seed, order])
    c.oblige('in range', s_and(s_le(1, r), s_lt(r, order)))
    if 'block' not in c.extra: raise Unsupported('numbers drawn in another way')
    c.oblige('one more than the first block in range', it.eqb(r, s_add(val(clipped(S, s_mul(s_add(b, 1 if e else 0), c.extra['block']), b, e)), 1))); c.reach('secret')
for nm, f in (('bytes', U.randrange_from_seed__truncate_bytes), ('bits', U.randrange_from_seed__truncate_bits)):
    @unit('C16', 'truncating to %s' % nm, contracts={U.bits_and_bytes: k_bits, math.log: k_log_w}, reach=['secret', 'given up'], max_forks=200)
    def u6(it, nm=nm, f=f):
        c = it.c; order = c.fresh('order', 2); c.extra['order'] = order; b, e = width2(it, order); seed = Opaque(('seed',)); m = c.fresh('n_digest', 1); D = whole(Sym('digest', m)); c.inputs['digest'] = D
        def hashmod(it, a, kw):
            c.oblige_by('the seed is hashed', len(a) == 1 and a[0] is seed, 'path'); return AObj(digest=Fn(lambda it, a, kw: D))
        w = s_add(b, 1 if e else 0)
        base = rslice(D, 0, w) if c.decide(s_le(w, m)) else rcat(rrep(b'\0', s_add(w, -m)), D)
        if nm == 'bits' and e: base = rcat(mk_pos(256, None, s_divmod(rindex(base, 0), 1 << e)[1], 1), rslice(base, 1, None))
        want = s_add(val(base), 1)
        try: r = it.call(f, [seed, order, Fn(hashmod)])
        except ProgExc as x: c.oblige('only a number out of range is refused', s_le(order, want)); c.reach('given up'); return
        c.oblige('in range', s_and(s_le(1, r), s_lt(r, order))); c.oblige('the leading part of the hash', it.eqb(r, want)); c.reach('secret')
