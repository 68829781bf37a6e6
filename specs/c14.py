"""C14: keys survive serialization"""
from .common import *
from .ec import *
from .c12 import k_n2s
from .c10 import F
from .c13 import sb, tail, tlv
E_PUB = (1, 2, 840, 10045, 2, 1)
from nbc.util.ecdsa import ecdsa as E, keys as K, util as U, der as D
CON = {U.number_to_string: k_n2s}
def k_valid(cv, g, st):
    def k(it, a, kw):
        c = it.c; c.trust('contract of point_is_valid (proved under C04)')
        c.oblige_by('validity on the curve', a[0] is cv.generator, 'path'); x, y = a[1], a[2]
        for j, u, v in g.reps:
            if c.quick(s_and(it.eqb(x, u), it.eqb(y, v))): return True
        if c.decide(c.fresh_bool('valid')):
            n = c.fresh('point', 1, record=False); c.fact(s_lt(n, g.n)); g.reps.append((n, x, y)); c.fact(s_and(s_le(0, x), s_lt(x, g.p), s_le(0, y), s_lt(y, g.p))); st['point'] = n; return True
        st['invalid'] = True; return False
    return k
def setup(it, cv):
    c = it.c; g = real_curve(it, cv); st = {}; it.contracts[E.point_is_valid] = k_valid(cv, g, st)
    d = c.fresh('secret', 1); c.assume(s_lt(d, g.n)); g.point(d); return c, g, d, st
def same_public(it, g, cv, vk, d, what):
    c = it.c
    c.oblige_by('%s: a verifying key' % what, isinstance(vk, K.VerifyingKey), 'path', repr(vk)); c.oblige_by('%s: the same curve' % what, it.getattr(vk, 'curve') is cv, 'path')
    P = it.getattr(it.getattr(vk, 'pubkey'), 'point'); G = it.getattr(it.getattr(vk, 'pubkey'), 'generator')
    c.oblige('%s: the same public point' % what, g.is_inf(s_add(P.k, -d)) if isinstance(P, GP) else False); c.oblige_by('%s: the same generator' % what, G is cv.generator, 'path')
    c.oblige('%s: the same order' % what, it.eqb(it.getattr(it.getattr(vk, 'pubkey'), 'order'), g.n))
def same_private(it, g, cv, sk, d, what):
    c = it.c; c.oblige_by('%s: a signing key' % what, isinstance(sk, K.SigningKey), 'path', repr(sk)); c.oblige_by('%s: the same curve' % what, it.getattr(sk, 'curve') is cv, 'path')
    c.oblige('%s: the same secret' % what, it.eqb(it.getattr(it.getattr(sk, 'privkey'), 'secret_multiplier'), d)); c.oblige('%s: the same order' % what, it.eqb(it.getattr(it.getattr(sk, 'privkey'), 'order'), g.n))
    same_public(it, g, cv, it.call(it.getattr(sk, 'get_verifying_key')), d, what)
for cv in curves.curves:
    for form in ('string', 'der', 'pem'):
        @unit('C14', 'private key of %s as %s' % (cv.name, form), contracts=CON, reach=['end'])
        def u0(it, cv=cv, form=form):
            c, g, d, st = setup(it, cv); sk = it.call(it.getattr(K.SigningKey, 'from_secret_exponent'), [d, cv]); same_private(it, g, cv, sk, d, 'made')
            w = it.call(it.getattr(sk, 'to_' + form))
            same_private(it, g, cv, it.call(it.getattr(K.SigningKey, 'from_' + form), [w] + ([cv] if form == 'string' else [])), d, 'read back')
        @unit('C14', 'public key of %s as %s' % (cv.name, form), contracts=CON, reach=['end'])
        def u1(it, cv=cv, form=form):
            c, g, d, st = setup(it, cv); vk = it.call(it.getattr(K.VerifyingKey, 'from_public_point'), [GP(g, d), cv])
            w = it.call(it.getattr(vk, 'to_' + form)); same_public(it, g, cv, vk, d, 'made')
            same_public(it, g, cv, it.call(it.getattr(K.VerifyingKey, 'from_' + form), [w] + ([cv] if form == 'string' else [])), d, 'read back')
    @unit('C14', 'raw public keys of %s that are not points are refused' % cv.name, contracts=CON, reach=['point', 'refused', 'length'])
    def u2(it, cv=cv):
        c, g, d, st = setup(it, cv); L = c.fresh('len', 0); s = whole(Sym('key', L)); c.inputs['key'] = s; ok = c.decide(s_eq(L, 2 * cv.baselen))
        try: vk = it.call(it.getattr(K.VerifyingKey, 'from_string'), [s, cv])
        except ProgExc as e:
            if not ok: c.reach('length'); return
            c.oblige_by('only what is not a point is refused', 'invalid' in st, 'path', repr(e.exc)); c.reach('refused'); return
        if not c.oblige_by('a wrong length is refused', ok, 'path'): return
        if not c.oblige_by('what is not a point is refused', 'point' in st and 'invalid' not in st, 'path'): return
        k, x, y = g.reps[-1]; c.oblige('the point of its coordinates', s_and(it.eqb(x, val(rslice(s, 0, cv.baselen))), it.eqb(y, val(rslice(s, cv.baselen, 2 * cv.baselen)))))
        same_public(it, g, cv, vk, st['point'], 'read'); c.reach('point')
    @unit('C14', 'raw private keys of %s outside the range are refused' % cv.name, contracts=CON, reach=['key', 'refused'])
    def u3(it, cv=cv):
        c = it.c; g = real_curve(it, cv); L = c.fresh('len', 0); s = whole(Sym('key', L)); c.inputs['key'] = s
        ok = s_and(s_le(1, val(s)), s_lt(val(s), g.n)) if c.decide(s_eq(L, cv.baselen)) else False
        try: sk = it.call(it.getattr(K.SigningKey, 'from_string'), [s, cv])
        except ProgExc as e: c.oblige('only a number out of range or a wrong length is refused', s_not(ok)); c.reach('refused'); return
        if c.oblige('a number out of range or a wrong length is refused', ok): same_private(it, g, cv, sk, val(s), 'read'); c.reach('key')
    @unit('C14', 'DER private keys of %s outside the range are refused' % cv.name, contracts=CON, reach=['key', 'refused'])
    def u4(it, cv=cv):
        c = it.c; g = real_curve(it, cv); s = sb(it, 'key'); t = tail(it); L = rlen(s); body = rcat(b'\2\1\1', tlv(4, s), tlv(0xa0, cv.encoded_oid), t)
        c.assume(s_le(ndigits(256, rlen(body)), 126)); w = tlv(0x30, body); short = c.decide(s_le(L, cv.baselen)); ok = s_and(s_le(1, val(s)), s_lt(val(s), g.n))
        try: sk = it.call(it.getattr(K.SigningKey, 'from_der'), [w])
        except ProgExc as e: c.oblige('only a number out of range or a longer string is refused', s_not(ok) if short else True); c.reach('refused'); return
        if c.oblige('a number out of range is refused', ok): same_private(it, g, cv, sk, val(s), 'read'); c.reach('key')
    @unit('C14', 'DER public keys of %s that are not points are refused' % cv.name, contracts=CON, reach=['point', 'refused', 'length'])
    def u5(it, cv=cv):
        c, g, d, st = setup(it, cv); s = sb(it, 'key'); L = rlen(s); pre = whole(Sym('prefix', 2)); c.inputs['prefix'] = pre
        bits = rcat(pre, s); c.assume(s_le(ndigits(256, s_add(L, 2)), 126)); body = rcat(tlv(0x30, rcat(D.encode_oid(*E_PUB), cv.encoded_oid)), tlv(3, bits))
        c.assume(s_le(ndigits(256, rlen(body)), 126)); w = tlv(0x30, body); ok = c.decide(s_eq(L, 2 * cv.baselen)) and c.decide(s_eq(val(pre), 4))
        try: vk = it.call(it.getattr(K.VerifyingKey, 'from_der'), [w])
        except ProgExc as e:
            if not ok: c.reach('length'); return
            c.oblige_by('only what is not a point is refused', 'invalid' in st, 'path', repr(e.exc)); c.reach('refused'); return
        if not c.oblige_by('a wrong length or form is refused', ok, 'path'): return
        if not c.oblige_by('what is not a point is refused', 'point' in st and 'invalid' not in st, 'path'): return
        k, x, y = g.reps[-1]; c.oblige('the point of its coordinates', s_and(it.eqb(x, val(rslice(s, 0, cv.baselen))), it.eqb(y, val(rslice(s, cv.baselen, 2 * cv.baselen)))))
        same_public(it, g, cv, vk, st['point'], 'read'); c.reach('point')
class AnyPoint(SObj):
    """a pair of coordinates on the curve, perhaps out of range; multiple of the order infinity or not"""
    _cls = EC.Point
    def __init__(self, g, x, y, inf): self.g, self.v, self.inf, self.order = g, dict(x=x, y=y), inf, None
    def s_truth(self, it): return True
    def s_isinstance(self, it, t): return t in (EC.Point, object)
    def s_getattr(self, it, a):
        if a in self.v: return Fn(lambda it, x, kw: self.v[a])
        if a == 'curve': return Fn(lambda it, x, kw: self.g.curve)
        if a == 'order': return Fn(lambda it, x, kw: None)
        raise Unsupported('attribute %s of a point' % a)
    def s_eq(self, it, o): return o is self
    def s_binop(self, it, op, l, r):
        e = r if l is self else l
        if op == 'Mult' and is_int(e): it.c.oblige('the multiple by the order', s_eq(e, self.g.n)); return EC.INFINITY if self.inf else GP(self.g, 1)
        raise ProgExc(TypeError('point arithmetic'))
@unit('C14', 'a public key is a point of the group, its coordinates in range', reach=['made', 'refused'])
def public(it):
    c = it.c; g = Group(it); x, y, d = (c.fresh(v, None) for v in ('x', 'y', 'd')); inf = c.choose(2) == 0; c.extra['tries'] = 0
    ok = s_and(s_le(0, x), s_lt(x, g.p), s_le(0, y), s_lt(y, g.p)) if inf else False; P = AnyPoint(g, x, y, inf)
    try: k = it.call(E.Public_key, [g.G, P])
    except ProgExc as e: c.oblige('only what is no point of the group is refused', s_not(ok)); c.reach('refused'); return
    if c.oblige('what is no point of the group is refused', ok):
        c.oblige_by('the point given', it.getattr(k, 'point') is P, 'path'); c.oblige_by('the generator given', it.getattr(k, 'generator') is g.G, 'path'); c.oblige_by('the curve of the generator', it.getattr(k, 'curve') is g.curve, 'path'); c.reach('made')
