"""C06: integers and byte strings"""
from .common import *
from .c01 import digits_loop
from nbc.util.ecdsa import util as U, curves, ecdsa as E
def sym_order(it):
    order = it.c.fresh('order', 1)
    return order
@unit('C06', 'the width is the minimal number of bytes that holds the order', reach=['end'])
def u0(it):
    c = it.c; order = sym_order(it)
    L = it.call(curves.orderlen, [order])
    c.oblige('wide enough', s_lt(order, POW(256, L)))
    c.oblige('minimal', s_and(s_le(1, L), s_le(POW(256, s_add(L, -1)), order)))
def width(it, order):
    """the contract of orderlen"""
    L = ndigits(256, order); return L
def k_orderlen(it, a, kw): return ndigits(256, a[0])
CON = {curves.orderlen: k_orderlen}
def _hor(it, g, pos): return [('prefix value', s_eq(g['acc'], val_(subseq(it.cur_seq, 0, pos))))]
HOR = [LoopSpec('horner', [('acc', Int())], _hor)]
@unit('C06', 'number_to_string writes exactly the fixed-width bytes, or refuses', contracts=CON, reach=['refused', 'written'])
def u1(it):
    c = it.c; order = sym_order(it); num = c.fresh('num')
    L = ndigits(256, order); fits = s_and(s_le(0, num), s_lt(num, POW(256, L)))
    try: r = it.call(U.number_to_string, [num, order])
    except ProgExc as e:
        c.oblige('only an integer that does not fit is refused', s_not(fits)); c.reach('refused'); return
    if not c.oblige('an integer that does not fit is refused', fits): return
    oblige_eq(it, 'big-endian bytes of fixed width', r, mk_pos(256, None, num, L)); c.reach('written')
@unit('C06', 'fixed-width round trip', contracts=CON, loops=HOR, reach=['end'])
def u2(it):
    c = it.c; order = sym_order(it); num = c.fresh('num', 0); c.assume(s_lt(num, order))
    t = it.call(U.number_to_string, [num, order])
    c.oblige('string_to_number inverts', it.eqb(it.call(U.string_to_number, [t]), num))
    c.oblige('string_to_number_fixedlen inverts', it.eqb(it.call(U.string_to_number_fixedlen, [t, order]), num))
@unit('C06', 'reading bytes gives their big-endian value', contracts=CON, loops=HOR, reach=['end'])
def u3(it):
    c = it.c; n = c.fresh('n', 1); s = whole(Sym('s', n)); c.inputs['s'] = s
    c.oblige('string_to_number', it.eqb(it.call(U.string_to_number, [s]), val(s)))
@unit('C06', 'fixed-length reading refuses other lengths', contracts=CON, loops=HOR, reach=['refused', 'read'])
def u3b(it):
    c = it.c; n = c.fresh('n', 0); s = whole(Sym('s', n)); c.inputs['s'] = s; order = sym_order(it)
    ok = s_eq(n, ndigits(256, order))
    try: r = it.call(U.string_to_number_fixedlen, [s, order])
    except ProgExc as e: c.oblige('only wrong lengths are refused', s_not(ok)); c.reach('refused'); return
    c.oblige('wrong lengths are refused', ok); c.oblige('value', it.eqb(r, val(s))); c.reach('read')
@unit('C06', 'string_to_int gives the big-endian value', loops=HOR, reach=['end'])
def u4(it):
    c = it.c; n = c.fresh('n', 0); s = whole(Sym('s', n)); c.inputs['s'] = s
    c.oblige('value', it.eqb(it.call(E.string_to_int, [s]), val(s)))
def i2s_loops():
    gN = lambda it: it.c.extra['N']
    out = []
    for le in (True, False):
        l = digits_loop('base 256 %d' % le, 256, None, 'l', le, gN); l.roles = [('v', Int(0)), ('s', PosSeq(256, None, 'l', le, single='b'))]
        out.append(l)
        for k in 'lb': out.append(digits_loop('base 256 %s %d' % (k, le), 256, None, k, le, gN))
    for l in out: l.hint = {'v': ('x',), 's': ('result',)}; l.variant = lambda it, g: g['v']
    return out
@unit('C06', 'int_to_string gives the minimal bytes', loops=i2s_loops(), reach=['end'])
def u5(it):
    c = it.c; x = c.fresh('x', 0); c.extra['N'] = x
    r = it.call(E.int_to_string, [x])
    oblige_eq(it, 'minimal big-endian bytes', r, mk_pos(256, None, x, ndigits(256, x)))
