from nbc.util.ecdsa import util as U, ecdsa as E, curves
from .ref import orderlen
def order(T, n): T.eq(curves.orderlen(n), max(orderlen(n), 1), 'orderlen')
def fixed(T, x, n):
    l = orderlen(n)
    if 0 <= x < 256 ** l:
        s = U.number_to_string(x, n); T.eq(s, x.to_bytes(l, 'big'), 'number_to_string')
        T.eq(U.string_to_number(s), x, 'string_to_number'); T.eq(U.string_to_number_fixedlen(s, n), x, 'string_to_number_fixedlen')
    else: T.raises(Exception, U.number_to_string, x, n)
def read(T, s):
    T.eq(E.string_to_int(s), int.from_bytes(s, 'big'), 'string_to_int')
    if s: T.eq(U.string_to_number(s), int.from_bytes(s, 'big'), 'string_to_number')
def badlen(T, s, n):
    if len(s) == orderlen(n): T.eq(U.string_to_number_fixedlen(s, n), int.from_bytes(s, 'big'), 'string_to_number_fixedlen')
    else: T.raises(Exception, U.string_to_number_fixedlen, s, n)
def var(T, x): T.eq(E.int_to_string(x), x.to_bytes(max(orderlen(x), 1), 'big'), 'int_to_string')
def run(T):
    for h in T.hints:
        n, x = h.get('order'), h.get('num')
        if isinstance(n, int) and n > 0:
            T.case(order, n)
            if isinstance(x, int): T.case(fixed, x, n)
        if isinstance(h.get('x'), int): T.case(var, h['x'])
        if isinstance(h.get('s'), bytes): T.case(read, h['s'])
    for b in range(0, 600):
        for d in (-1, 0, 1):
            n = (1 << b) + d
            if n >= 1: T.case(order, n); T.case(fixed, n - 1, n); T.case(fixed, 0, n); T.case(fixed, 256 ** orderlen(n) - 1, n); T.case(fixed, 256 ** orderlen(n), n); T.case(fixed, -1, n)
            T.case(var, max(n, 0))
    for n in range(1, 700): T.case(order, n); T.case(var, n); T.case(fixed, n, 300)
    for i in range(0, 40): T.case(read, bytes(i)); T.case(read, bytes(i) + b'\1'); T.case(read, b'\xff' * i)
    for c in curves.curves:
        for x in (0, 1, c.order - 1, c.order, c.order >> 8, c.order >> 9): T.case(fixed, x, c.order)
    while T.more():
        n = T.below(1 << T.rng.choice((8, 17, 64, 256, 521))) + 1
        T.case(order, n); T.case(fixed, T.below(n), n); T.case(fixed, T.rng.choice((1, -1)) * T.below(n << 20), n)
        s = T.bytes(0, 70); T.case(read, s); T.case(badlen, s, n); T.case(badlen, T.bytes(orderlen(n)), n); T.case(var, T.below(1 << T.rng.choice((8, 64, 300))))
