"""C26: variable-length fields"""
from .proto import *
@unit('C26', 'a count is written in its shortest form and read back', reach=['end'])
def u1(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1)
    want = varint(n)
    b = it.call(F.FtVarInteger.binary, [n])
    oblige_eq(it, 'shortest form', b, want)
    rest = tail(it)
    l, v = it.to_list(it.call(F.FtVarInteger.parse, [rcat(b, rest)]))
    c.oblige('bytes consumed', s_eq(l, rlen(want))); c.oblige('count read back', it.eqb(v, n))
@unit('C26', 'a count is written in its shortest form (through an instance)', reach=['end'])
def u1b(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); t = F.FtVarInteger()
    oblige_eq(it, 'shortest form', it.call(it.getattr(t, 'binary'), [n]), varint(n))
@unit('C26', 'a truncated count is refused', reach=['refused', 'read'])
def u2(it):
    c = it.c; d = sbytes(it, 'data'); n = rlen(d)
    e = c.decide(s_le(1, n))
    try: l, v = it.to_list(it.call(F.FtVarInteger.parse, [d]))
    except ProgExc as x:
        if e:
            f = d.segs[0][1].elem(0)
            c.oblige('only truncated input is refused', s_or(s_and(s_eq(f, 0xfd), s_lt(n, 3)), s_and(s_eq(f, 0xfe), s_lt(n, 5)), s_and(s_eq(f, 0xff), s_lt(n, 9))))
        c.reach('refused'); return
    c.oblige('no more bytes than there are', s_le(l, n))
    if not e: return
    f = d.segs[0][1].elem(0)
    w = 1 if c.decide(s_lt(f, 0xfd)) else 3 if c.decide(s_eq(f, 0xfd)) else 5 if c.decide(s_eq(f, 0xfe)) else 9
    c.oblige('bytes consumed', s_eq(l, w))
    c.oblige('value', it.eqb(v, f if w == 1 else val_(subseq(d, 1, w), 256, None, True))); c.reach('read')
def k_varint(it, a, kw):
    it.c.trust('contract of FtVarInteger.binary (proved under C26)')
    if not it.c.decide(s_and(s_le(0, a[-1]), s_lt(a[-1], 1 << 64))): raise Unsupported('count out of range')
    return varint(a[-1])
@unit('C26', 'byte strings are count and contents', reach=['end'])
def u3(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); s = sbytes(it, 's', n)
    b = it.call(F.FtVarString.binary, [s])
    oblige_eq(it, 'count then contents', b, rcat(varint(n), s))
    l, v = it.to_list(it.call(F.FtVarString.parse, [rcat(b, tail(it))]))
    c.oblige('bytes consumed', s_eq(l, rlen(b))); oblige_eq(it, 'contents read back', v, s)
@unit('C26', 'text is written as its Latin-1 bytes', reach=['end'])
def u3b(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); s = whole(Sym('s', n), 's'); c.inputs['s'] = s
    b = it.call(F.FtVarString.binary, [s])
    oblige_eq(it, 'count then contents', b, rcat(varint(n), norm('b', segs_of(s))))
@unit('C26', 'a truncated byte string is refused', reach=['refused', 'read'])
def u4(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); m = c.fresh('m', 0); d = sbytes(it, 'd', m)
    try: l, v = it.to_list(it.call(F.FtVarString.parse, [rcat(varint(n), d)]))
    except ProgExc: c.oblige('only truncated input is refused', s_lt(m, n)); c.reach('refused'); return
    if not c.oblige('truncated input is refused', s_le(n, m)): return
    oblige_eq(it, 'contents', v, subseq(d, 0, n)); c.reach('read')
L = lambda it: it.c.extra['list']
def child(it):
    """any element type whose parser inverts its encoder (its contract)"""
    def parse(it, a, kw):
        r = find_item(a[0])
        if r is None:
            if it.c.extra.get('truncated') and it.truth(s_le(rlen(a[0]), 0)): raise ProgExc(ValueError('truncated'))
            raise Unsupported('element parser applied elsewhere')
        if not it.c.decide(s_le(r[0].EL(r[1]), rlen(a[0]))): raise ProgExc(ValueError('truncated'))
        return (r[0].EL(r[1]), r[0].item(r[1]))
    def binary(it, a, kw):
        if not isinstance(a[0], Item): raise Unsupported('element encoder applied elsewhere')
        return a[0].lst.encoding(a[0].i)
    return AObj(parse=Fn(parse), binary=Fn(binary))
PL = parse_loop(L, lambda it: it.c.extra['base'])
def join_loop():
    inv = lambda it, g, pos: []
    return LoopSpec('items written so far', [('out', Defined('b', lambda it, p: rcat(it.c.extra['prefix'](it), subseq(L(it).body(), 0, L(it).PL(p)))))], inv)
JL = [LoopSpec('items written so far %d' % k, [('out', Defined('b', lambda it, p, k=k: rcat(it.c.extra['base_b'], subseq(L(it).body(), 0, L(it).PL(p))) if k else subseq(L(it).body(), 0, L(it).PL(p))))], lambda it, g, pos: []) for k in (0, 1)]
for kind in 'lt':
    @unit('C26', 'a list is written as its count and its elements (%s)' % dict(l='list', t='tuple')[kind], loops=JL + WRITTEN, join_rule=join_rule, reach=['end'])
    def u5(it, kind=kind):
        c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); X = AList('X', n); c.extra['list'] = X
        t = F.FtArray(child(it)); v = varint(n); c.extra['base_b'] = v
        it.contracts[F.FtVarInteger.binary] = k_varint
        b = it.call(it.getattr(t, 'binary'), [X.value(kind)])
        oblige_eq(it, 'count then elements', b, rcat(v, X.body()))
@unit('C26', 'a list is read back in front of any bytes', loops=[PL], reach=['end'])
def u6(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); X = AList('X', n); c.extra['list'] = X
    t = F.FtArray(child(it)); v = varint(n); c.extra['base'] = rlen(v); d = rcat(v, X.body(), tail(it)); c.extra['input'] = d
    l, r = it.to_list(it.call(it.getattr(t, 'parse'), [d]))
    c.oblige('bytes consumed', s_eq(l, s_add(rlen(v), X.total)))
    oblige_eq(it, 'the same elements', norm('l', segs_of(r)), X.value())
PLT = parse_loop(L, lambda it: it.c.extra['base'])
PLT.inv = lambda it, g, pos: [('within the count', s_le(pos, L(it).n)), ('within the input', s_le(L(it).PL(pos), it.c.extra['cut']))]
@unit('C26', 'a truncated list is refused', loops=[PLT], reach=['refused'])
def u7(it):
    c = it.c; n = c.fresh('n', 1, (1 << 64) - 1); X = AList('X', n); c.extra['list'] = X
    cut = c.fresh('cut', 0); c.extra['cut'] = cut; c.assume(s_lt(cut, X.total))
    t = F.FtArray(child(it)); v = varint(n); c.extra['base'] = rlen(v); d = rcat(v, subseq(X.body(), 0, cut)); c.extra['input'] = d
    try: it.call(it.getattr(t, 'parse'), [d])
    except ProgExc: c.reach('refused'); return
    c.oblige_by('a truncated list is refused', False, 'path', 'accepted')
ZL = LoopSpec('items read so far', [('ret', Defined('l', lambda it, p: norm('l', [('R', b'', p)]))), ('off', Defined('int', lambda it, p: it.c.extra['base'])), ('index', Defined('int', lambda it, p: p)),
    ('left', Defined('int', lambda it, p: s_add(it.c.extra['count'], -p))), ('used', Defined('int', lambda it, p: 0)), ('data', Defined('b', lambda it, p: rslice(it.c.extra['input'], it.c.extra['base'], None)))],
    lambda it, g, pos: [('within the count', s_le(pos, it.c.extra['count']))], optional=('off', 'index', 'left', 'used', 'data'), ghost=True, hint=dict(index=('i',)))
@unit('C26', 'a list of elements of no bytes is read back', loops=[ZL], reach=['end'])
def u8(it):
    c = it.c; n = c.fresh('n', 0, (1 << 64) - 1); c.extra['count'] = n
    t = F.FtArray(F.FtBytes(0)); v = varint(n); c.extra['base'] = rlen(v); d = rcat(v, tail(it)); c.extra['input'] = d
    l, r = it.to_list(it.call(it.getattr(t, 'parse'), [d]))
    c.oblige('bytes consumed', s_eq(l, rlen(v))); oblige_eq(it, 'the same elements', norm('l', segs_of(r)), norm('l', [('R', b'', n)]))
