"""C39: splitting and combining private keys"""
from .common import *
from .ec import *
from .c12 import k_n2s
from .wif import *
from .c17 import keys
from nbc.util import piecewise as PW
from pyvc.interp import SIter
from nbc.util.ecdsa import util as U, curves
ORDER = curves.SECP256k1.order
FORMS = [('int', 'l', lambda v: v), ('bytes', 'l', lambda v: be32(v)), ('wif', 'l', lambda v: wif(be32(v)))]
class Fam(Base):
    """a list of secrets s(0), s(1), ..., as numbers, as 32 bytes, or as texts"""
    elem_lo = elem_hi = None
    def __init__(self, name, n, form): self.name, self.n, self.form = name, n, form; self._key = ('secrets', name, form)
    def number(self, i): return Sym('s_' + self.name, self.n, 0, ORDER - 1).elem(i)
    def elem(self, i): return dict((f, w) for f, k, w in FORMS)[self.form](self.number(i))
    def __repr__(self): return '%s of %s' % (self.form, self.name)
def pieces(src, seq):
    """(offset, length, base and start or None, value)"""
    out, o = [], 0
    r = src if isinstance(src, Rope) else core.CUR.extra['it'].under(seq, None)
    if r is None: return [(0, seq.n, None, None)]
    for s in segs_of(r):
        if s[0] == 'A': out.append((o, s[3], (s[1], s[2]), None)); o = s_add(o, s[3])
        else:
            for v in s[1] if s[0] == 'L' else [s[1]]: out.append((o, 1, None, v)); o = s_add(o, 1)
    return out
def comp_rule(it, src, seq, elem):
    c = it.c; segs = []
    for o, n, base, v in pieces(src, seq):
        if isinstance(n, int) and n == 1 and base is None: segs += segs_of(mk_seq('l', [elem(o)])); continue
        if c.decide(s_eq(n, 0)): continue
        i = c.fresh('i', 0, record=False); c.assume(s_lt(i, n)); c.reach('elements')
        r = elem(s_add(o, i))
        if base is None:
            if not any(r is x for x in c.extra['random']): raise Unsupported('list of other numbers')
            segs.append(('A', Fam('random', n, 'int'), 0, n)); continue
        b, st = base; new = None
        for f, k, w in FORMS:
            x = w(b.number(s_add(st, i)))
            if (is_int(x) and is_int(r) and c.quick(s_eq(x, r))) or (isinstance(x, Rope) and isinstance(r, Rope) and (seqkey(x) == seqkey(r) or c.quick(it.eqb(x, r)))): new = Fam(b.name, b.n, f); break
        if new is None: raise Unsupported('elements %r' % (r,))
        segs.append(('A', new, st, n))
    return norm('l', segs)
def k_sum(it, a, kw):
    t = a[1] if len(a) > 1 else 0
    c = it.c; src = a[0]; seq = it.iter_of(src)
    if not isinstance(src, Rope) and getattr(seq, 'key', ('',))[0] == 'map': src = comp_rule(it, src, seq, seq.elem); seq = it.iter_of(src)
    if not isinstance(src, Rope) and not hasattr(seq, 'n'): 
        for v in seq: t = it.binop('Add', t, v)
        return t
    for o, n, base, v in pieces(src, seq):
        if base is None and not (isinstance(n, int) and n == 1): raise Unsupported('sum')
        if base is None: t = it.binop('Add', t, v)
        else:
            if base[0].form != 'int': raise Unsupported('sum of texts')
            t = s_add(t, total(base[0], base[1], n))
    return t
def total(b, st, n):
    c = core.CUR
    if same(n, 0): return 0
    s, new = c.atom2(('total', b.name, st, n), 'total_' + b.name)
    if new:
        c.fact(s_le(0, s)); c.fact(s_implies(s_eq(n, 0), s_eq(s, 0)))
        for st2, n2, s2 in c.memo.setdefault('totals', {}).setdefault(b.name, []):      # one more element, one more summand
            if not same(st, st2): continue
            c.fact(s_implies(s_eq(n, s_add(n2, 1)), s_eq(s, s_add(s2, b.number(s_add(st, n2))))))
            c.fact(s_implies(s_eq(n2, s_add(n, 1)), s_eq(s2, s_add(s, b.number(s_add(st, n))))))
            c.fact(s_implies(s_eq(n, n2), s_eq(s, s2)))
        c.memo['totals'][b.name].append((st, n, s))
    return s
# -- the same written as loops
def number_of(v):
    if is_int(v): return v
    w = is_app(v, 'wif') if isinstance(v, Rope) else None
    return val(w[0] if w is not None else v)
def rope_of(it):
    r = it.cur_seq
    if not isinstance(r, Rope) or any(g[0] == 'A' and not isinstance(g[1], Fam) for g in segs_of(r)): raise Unsupported('loop over something else')
    return r
def upto(it, pos):
    """segments of the list up to the loop position"""
    return segs_of(subseq(rope_of(it), 0, pos))
def summed(it, pos):
    t = 0
    for g in upto(it, pos):
        if g[0] == 'A': t = s_add(t, total(g[1], g[2], g[3]))
        else:
            for v in g[1]: t = s_add(t, number_of(v))
    return t
def changed(w):
    def f(it, pos):
        out = []
        for g in upto(it, pos):
            out.append(('A', Fam(g[1].name, g[1].n, w[0]), g[2], g[3]) if g[0] == 'A' else ('L', tuple(w[2](number_of(v)) for v in g[1])))
        return norm('l', out)
    return f
over = lambda it, seq, s: isinstance(it.cur_seq, Rope) and it.cur_seq.kind in 'lt' and all(g[0] == 'A' and isinstance(g[1], Fam) or g[0] == 'L' for g in segs_of(it.cur_seq))
none = lambda it, g, pos: []
seen = lambda it, g, pos: it.c.reach('elements')
LOOPS = [LoopSpec('the sum modulo the order', [('sum', Shifted(lambda it, x, p: s_divmod(s_add(x, summed(it, p)), ORDER)[1] if not (isinstance(p, int) and p == 0) else x))], none, guard=over, at_body=seen),
         LoopSpec('the sum', [('sum', Shifted(lambda it, x, p: s_add(x, summed(it, p))))], none, guard=over, at_body=seen)] + \
        [LoopSpec('each as %s' % w[0], [('out', Grown('l', changed(w)))], none, guard=over, at_body=seen) for w in FORMS]
def drawn(it, pos): return norm('l', [('A', Fam('random', it.c.extra['draws'], 'int'), 0, pos)])
def drawing(it, seq, s): 
    if seq is None or it.c.extra.get('secret') is None: return False
    return isinstance(seq, SIter) and seq.key[0] == 'range'
def at_draw(it, g, pos): it.c.extra['draw_at'] = pos
less = lambda it, p: total(Fam('random', it.c.extra['draws'], 'int'), 0, p)
for nm, f in (('', None), (', the rest modulo the order', lambda it, x, p: s_divmod(s_add(x, -less(it, p)), ORDER)[1] if not (isinstance(p, int) and p == 0) else x), (', the rest', lambda it, x, p: s_add(x, -less(it, p))),
              (', the sum', lambda it, x, p: s_add(x, less(it, p)))):
    LOOPS.append(LoopSpec('random parts' + nm, [('parts', Grown('l', drawn))] + ([('rest', Shifted(f))] if f else []), none, guard=drawing, at_body=at_draw))
def k_rand(it, a, kw):
    c = it.c; c.trust('contract of randrange (proved under C16)')
    c.oblige('random below the order', it.eqb(a[0], ORDER))
    if c.extra.get('draw_at') is not None:      # this iteration's draw: any number, called the next of the family
        p = c.extra['draw_at']; c.extra['draw_at'] = None
        v = Fam('random', c.extra['draws'], 'int').number(p); c.assume(s_le(1, v)); return v
    v = c.fresh('random', 1, record=False); c.assume(s_lt(v, ORDER)); c.extra.setdefault('random', []).append(v); return v
CON = {**WIF, sum: k_sum, U.randrange: k_rand, U.number_to_string: k_n2s}
def secret(it, text):
    """the number a text stands for"""
    r = is_app(text, 'wif')
    if r is None: it.c.oblige_by('a private key in wallet import format', False, 'path', repr(text)); return None
    it.c.oblige('without the compression mark', s_eq(rlen(r[0]), 32)); return val(r[0])
@unit('C39', 'combining adds the secrets', contracts=CON, comp_rule=comp_rule, loops=LOOPS, reach=['end', 'elements'])
def u0(it):
    c = it.c; c.extra['it'] = it; n = c.fresh('n', 1); f = Fam('given', n, 'wif'); l = norm('l', [('A', f, 0, n)])
    r = secret(it, it.call(PW.combine_private_keys, [l])); c.oblige('the sum modulo the order', s_eq(r, s_divmod(total(f, 0, n), ORDER)[1]))
@unit('C39', 'combining two keys, in any form', contracts=CON, comp_rule=comp_rule, loops=LOOPS, reach=['end'])
def u1(it):
    c = it.c; c.extra['it'] = it; a, b = c.fresh('a', 0), c.fresh('b', 0); c.assume(s_lt(a, ORDER)); c.assume(s_lt(b, ORDER))
    ws = [wif(rcat(be32(v), b'\x01')) if c.choose(2) else wif(be32(v)) for v in (a, b)]
    r = secret(it, it.call(PW.combine_private_keys, [ws])); c.oblige('the sum modulo the order', s_eq(r, s_divmod(s_add(a, b), ORDER)[1]))
for how in ('any number', 'the default number'):
    @unit('C39', 'splitting into %s of parts and combining gives the key back' % how, contracts=CON, comp_rule=comp_rule, loops=LOOPS, reach=['end'])
    def u2(it, how=how):
        c = it.c; c.extra['it'] = it; d = c.fresh('secret', 0); c.extra['secret'] = d; c.assume(s_lt(d, ORDER)); t = wif(be32(d))
        c.extra['draws'] = c.fresh('draws', 0, record=False)
        parts = it.call(PW.split_private_key, [t] + ([c.fresh('count', 1)] if how == 'any number' else [])); n = c.inputs['count'] if how == 'any number' else 2
        c.oblige('as many parts as asked', s_eq(rlen(parts) if isinstance(parts, Rope) else len(it.to_list(parts)), n))
        v = secret(it, it.call(PW.combine_private_keys, [parts]))
        if c.oblige_by('the secret comes back (modulo the order)', poly.is_zero(s_add(v, -d), ORDER), 'poly', repr(v)): c.oblige('reduced, so the same text', s_and(s_le(0, v), s_lt(v, ORDER)))
def k_address(it, a, kw):
    kw = dict(zip(('publickey', 'vcn', 'version'), a), **kw); it.c.trust('contract of publickey_to_address (proved under C05)')
    return app('address', (kw['publickey'], kw['vcn'], kw.get('version', b'\0')), it.c.fresh('addresslen', 1, record=False))
@unit('C39', 'the address of a combined key', contracts={**CON, KEY.publickey_to_address: k_address}, comp_rule=comp_rule, loops=LOOPS, reach=['end'])
def u3(it):
    c = it.c; c.extra['it'] = it; g = secp256k1(it); a, b = keys(it, g, 'a'), keys(it, g, 'b'); s = s_add(a, b)
    g.point(s)
    if c.decide(g.is_inf(s)): return                                # the combined key is zero: no address
    vcn = c.fresh('vcn', 0); ver = whole(Sym('version', 1)); kw = {} if c.choose(2) else dict(version=ver)
    pl = lambda v: rcat(be32(v), b'\x01') if c.choose(2) else be32(v)
    r = it.call(PW.get_address, [full(g, a), wif(pl(b)), vcn], kw)
    x = is_app(r, 'address')
    if not c.oblige_by('an address', x is not None, 'path', repr(r)): return
    k = secret(it, it.call(PW.combine_private_keys, [[wif(be32(a)), wif(be32(b))]]))
    oblige_eq(it, 'of the public key of the combined private key', x[0], full(g, k)); c.oblige('for the vcn', it.eqb(x[1], vcn)); oblige_eq(it, 'and version', x[2], kw.get('version', b'\0'))
@unit('C39', 'only an uncompressed public key is taken', contracts=CON, reach=['end'])
def u4(it):
    c = it.c; L = c.fresh('len', 0); k = whole(Sym('key', L)); c.inputs['key'] = k
    bad = s_not(s_eq(L, 65)) if not c.decide(s_eq(L, 65)) else s_not(s_eq(rindex(k, 0), 4)); c.assume(bad)
    try: it.call(PW.get_address, [k, wif(be32(c.fresh('b', 1))), 0]); e = None
    except ProgExc as x: e = x.exc
    c.oblige_by('ValueError', isinstance(e, ValueError), 'path', repr(e))
