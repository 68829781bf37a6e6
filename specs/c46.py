"""C46: coins, curves and outpoints are identified exactly"""
from .proto import *
from nbc import coins as C
from nbc.util.ecdsa import curves as CV
from pyvc.models import other_case
# ---- coins
def text(it, name): return whole(Sym(name, it.c.fresh('len_' + name, 0), 0, 127), 's')
def spelled(it, x, how):
    """an absent, empty or arbitrary text"""
    return None if how == 0 else '' if how == 1 else text(it, x)
def same_letters(it, x, w):
    """x is w in some mixture of cases"""
    if x is None or kind_of(x) != 's': return False
    n = len(w); S = segs_of(x)[0][1] if segs_of(x) else None; e = [S.elem(i) for i in range(n)] if S is not None and it.c.decide(s_eq(rlen(x), n)) else None
    return False if e is None else s_and(*[s_or(s_eq(v, ord(k.lower())), s_eq(v, ord(k.upper()))) for v, k in zip(e, w)])
for kn in range(3):
    for ks in range(3):
        for way in (0, 1):
            @unit('C46', 'the coin with %s name and %s symbol (%s)' % (('no', 'an empty', 'any')[kn], ('no', 'an empty', 'any')[ks], ('by keyword', 'by position')[way]), reach=['end'])
            def u1(it, kn=kn, ks=ks, way=way):
                c = it.c; n, s = spelled(it, 'name', kn), spelled(it, 'symbol', ks); c.inputs['name'], c.inputs['symbol'] = n, s
                r = it.call(C.get_coin, [n, s]) if way else it.call(C.get_coin, [], dict([('name', n)] * (n is not None) + [('symbol', s)] * (s is not None)))
                for coin in C.Coins:
                    hit = s_or(same_letters(it, n, coin.name), *[same_letters(it, s, w) for w in coin.symbols])
                    if c.decide(hit):
                        c.oblige_by('the coin of that name or symbol', r is coin, 'path', repr(r)); return
                c.oblige_by('no coin when none has that name or symbol', r is None, 'path', repr(r))
# ---- curves
@unit('C46', 'the curve with an object identifier', reach=['known', 'unknown'])
def u2(it):
    c = it.c; oid = whole(Sym('oid', c.fresh('n', 0), 0, None), 't'); c.inputs['oid'] = oid
    try: r = it.call(CV.find_curve, [oid])
    except ProgExc as e:
        c.oblige('refused only when no curve has the identifier', s_not(s_or(*[it.eqb(oid, k.oid) for k in CV.curves])))
        c.oblige_by('the unknown-curve error', isinstance(e.exc, CV.UnknownCurveError), 'path', repr(e.exc)); c.reach('unknown'); return
    c.oblige_by('one of the curves', any(r is k for k in CV.curves), 'path', repr(r)); c.oblige('the curve with that identifier', it.eqb(r.oid, oid)); c.reach('known')
for k in CV.curves:
    @unit('C46', 'the curve %s by its identifier' % k.name, reach=['end'])
    def u3(it, k=k): it.c.oblige_by('that curve', it.call(CV.find_curve, [k.oid]) is k, 'path')
# ---- outpoints
def outpoint(it, i): return it.call(F.OutPoint, [whole(Sym('hash%d' % i, 32)), it.c.fresh('index%d' % i, 0, (1 << 32) - 1)])
@unit('C46', 'outpoints are equal exactly when transaction and index are', reach=['equal', 'different'], **PK)
def u4(it):
    c = it.c; a, b = outpoint(it, 1), outpoint(it, 2)
    ha, hb, ia, ib = [it.getattr(o, n) for n in ('hash', 'index') for o in (a, b)]; want = s_and(it.eqb(ha, hb), it.eqb(ia, ib))
    r = it.truth(it.eq(a, b)); q = it.truth(it.eq(b, a)); x, y = it.call(hash, [a]), it.call(hash, [b])
    if c.decide(want):
        c.oblige_by('equal', r is True and q is True, 'path', repr((r, q))); c.oblige('equal outpoints hash equally', it.eqb(x, y)); c.reach('equal')
    else: c.oblige_by('different', r is False and q is False, 'path', repr((r, q))); c.reach('different')
@unit('C46', 'an outpoint differs from anything else', reach=['end'], **PK)
def u5(it):
    c = it.c; a = outpoint(it, 1); h, i = it.getattr(a, 'hash'), it.getattr(a, 'index'); k = c.choose(4)
    other = (None, (h, i), h, None)[k] if k < 3 else it.call(F.InventoryVector, [1, h])
    c.oblige_by('different', it.truth(it.eq(a, other)) is False, 'path', repr(other))
