"""C12: signature encodings"""
from .common import *
from .c13 import tlv, intbody, dlen, ELEN, tail, nonneg
from nbc.util.ecdsa import der as D, util as U, curves
from nbc.util import ecc
from .c06 import k_orderlen
def setup(it):
    c = it.c; n = c.fresh('order', 2); r = c.fresh('r', 1); s = c.fresh('s', 1); c.assume(s_lt(r, n)); c.assume(s_lt(s, n)); return c, n, r, s
def k_n2s(it, a, kw):
    num, order = a; L = ndigits(256, order); it.c.trust('contract of number_to_string (proved under C06)')
    if not is_int(num) or not it.c.decide(s_and(s_le(0, num), s_lt(num, POW(256, L)))): raise Unsupported('number_to_string out of range: %r for %r' % (num, order))
    return mk_pos(256, None, num, L)
NUM = {curves.orderlen: k_orderlen, U.number_to_string: k_n2s}
def fixed(n, x): return mk_pos(256, None, x, ndigits(256, n))
@unit('C12', 'fixed-length strings', contracts=NUM, reach=['end'])
def u1(it):
    c, n, r, s = setup(it); w = rcat(fixed(n, r), fixed(n, s))
    oblige_eq(it, 'r then s in fixed width', it.call(U.sigencode_string, [r, s, n]), w)
    a, b = it.to_list(it.call(U.sigdecode_string, [w, n])); c.oblige('r read back', it.eqb(a, r)); c.oblige('s read back', it.eqb(b, s))
@unit('C12', 'pairs of strings', contracts=NUM, reach=['end'])
def u2(it):
    c, n, r, s = setup(it); wr, ws = fixed(n, r), fixed(n, s)
    a, b = it.to_list(it.call(U.sigencode_strings, [r, s, n])); oblige_eq(it, 'r', a, wr); oblige_eq(it, 's', b, ws)
    a, b = it.to_list(it.call(U.sigdecode_strings, [(wr, ws), n])); c.oblige('r read back', it.eqb(a, r)); c.oblige('s read back', it.eqb(b, s))
# the DER integer, abstractly: its own contracts
def aint(r):
    w, new = core.CUR.atom2(('wint', r), 'wint')
    if new: core.CUR.fact(s_le(3, w))
    return whole(App('derint', (r,), w))
def k_enc_int(it, a, kw):
    it.c.trust('contract of encode_integer (proved under C13)')
    if not is_int(a[0]) or not it.c.decide(s_le(0, a[0])): raise Unsupported('negative integer')
    return aint(a[0])
def k_rem_int(fn):
    def k(it, a, kw):
        s = segs_of(a[0])
        if s and s[0][0] == 'A' and isinstance(s[0][1], App) and s[0][1].fn == 'derint' and same(s[0][2], 0) and same(s[0][3], s[0][1].n):
            it.c.trust('contract of remove_integer (proved under C13, and below for the liberal decoder)')
            return (s[0][1].args[0], norm('b', s[1:]))
        return it.call_body(fn, a, kw)
    return k
DER = dict(NUM); DER.update(ELEN); DER.update({D.encode_integer: k_enc_int, D.remove_integer: k_rem_int(D.remove_integer), ecc.remove_integer: k_rem_int(ecc.remove_integer)})
def dersig(r, s): return tlv(0x30, rcat(aint(r), aint(s)))
@unit('C12', 'DER', contracts=DER, reach=['end'])
def u3(it):
    c, n, r, s = setup(it); w = dersig(r, s)
    oblige_eq(it, 'a sequence of two integers', it.call(U.sigencode_der, [r, s, n]), w)
    for nm, f in (('strict', U.sigdecode_der), ('liberal', ecc.sigdecode_der)):
        a, b = it.to_list(it.call(f, [w, n])); c.oblige(nm + ' decoder: r read back', it.eqb(a, r)); c.oblige(nm + ' decoder: s read back', it.eqb(b, s))
@unit('C12', 'the liberal integer reader agrees with the strict one', reach=['end'])
def u4(it):
    c = it.c; r = nonneg(it); t = tail(it)
    v, rest = it.to_list(it.call(ecc.remove_integer, [rcat(tlv(2, intbody(it, r)), t)]))
    c.oblige('value', it.eqb(v, r)); oblige_eq(it, 'trailing bytes', rest, t)
def low(it, n, s):
    if it.c.decide(s_le(s, s_divmod(n, 2)[0])): return s
    return s_add(n, -s)
for nm, f, w in (('strings', U.sigencode_strings_canonize, lambda it, n, r, s: (fixed(n, r), fixed(n, s))), ('string', U.sigencode_string_canonize, lambda it, n, r, s: rcat(fixed(n, r), fixed(n, s))),
        ('DER', U.sigencode_der_canonize, lambda it, n, r, s: dersig(r, s))):
    @unit('C12', 'canonical form has low s (%s)' % nm, contracts=DER, reach=['end'])
    def u5(it, f=f, w=w):
        c, n, r, s = setup(it); l = low(it, n, s)
        c.oblige('low', s_and(s_le(1, l), s_le(s_mul(2, l), n)))
        want = w(it, n, r, l); e = it.call(f, [r, s, n])
        if isinstance(want, tuple):
            e = it.to_list(e); c.oblige_by('a pair', len(e) == 2, 'path', ''); oblige_eq(it, 'r', e[0], want[0]); oblige_eq(it, 's', e[1], want[1])
        else: oblige_eq(it, 'r and the low s', e, want)
def refused(it, name, f, a):
    try: r = it.call(f, a)
    except ProgExc as x: it.c.oblige_by(name, isinstance(x.exc, (AssertionError, D.UnexpectedDER)), 'path', repr(x.exc)); return
    it.c.oblige_by(name, False, 'path', 'accepted: %r' % (r,))
from .proto import sbytes
def junk(it): j = tail(it); it.c.assume(s_le(1, rlen(j))); return j
for nm, mk in (('after the signature', lambda it, r, s: rcat(dersig(r, s), junk(it))), ('after its numbers', lambda it, r, s: tlv(0x30, rcat(rcat(aint(r), aint(s)), junk(it))))):
    @unit('C12', 'the strict decoder refuses bytes ' + nm, contracts=DER, reach=['end'])
    def u6(it, mk=mk): c, n, r, s = setup(it); refused(it, 'refused', U.sigdecode_der, [mk(it, r, s), n])
@unit('C12', 'strings of another length are refused', contracts=NUM, reach=['one string', 'two strings'])
def u7(it):
    c, n, r, s = setup(it); L = ndigits(256, n); c.fact(s_le(1, L))
    if c.choose(2): w = sbytes(it, 'signature'); c.assume(s_ne(rlen(w), s_mul(2, L))); refused(it, 'refused', U.sigdecode_string, [w, n]); c.reach('one string')
    else:
        a, b = sbytes(it, 'first'), sbytes(it, 'second'); c.assume(s_or(s_ne(rlen(a), L), s_ne(rlen(b), L))); refused(it, 'refused', U.sigdecode_strings, [(a, b), n]); c.reach('two strings')
