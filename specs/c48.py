"""C48: the supported curves are the published groups of prime order

The numbers are read from the curve objects of the code; primes by certificate (specs/primes.py).  Trusted mathematics:
Hasse's bound (a curve over the field of p elements has between p+1-2*sqrt(p) and p+1+2*sqrt(p) points) and Lagrange's
theorem, so that a point of prime order n above 4*sqrt(p) generates all points there are."""
import math
from .common import *
from .c06 import k_orderlen
from .primes import prime, STANDARD
from pyvc.absl import AObj, Fn
from pyvc.interp import Splat
from nbc.util.ecdsa import curves as CV, der as D, ellipticcurve as EC
def times(k, P, a, p):
    """k*P in affine coordinates, for the concrete cross-check of the order (independent of the code)"""
    def add(P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0: return None
            l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
        else: l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p; return x, (l * (P[0] - x) - P[1]) % p
    R = None
    while k:
        if k & 1: R = add(R, P)
        P = add(P, P); k >>= 1
    return R
HASSE = "Hasse's bound on the number of points of a curve, Lagrange's theorem, and the theorem behind the primality certificates (Brillhart, Lehmer, Selfridge 1975)"
@unit('C48', 'the curves supported', reach=['end'])
def u0(it):
    names = [it.getattr(k, 'name') for k in it.to_list(CV.curves)]
    it.c.oblige_by('each once', sorted(names) == sorted(STANDARD), 'computed', repr(names))
for name in sorted(STANDARD):
    @unit('C48', '%s is the published group of prime order' % name, reach=['end'])
    def u1(it, name=name):
        c = it.c; c.trust(HASSE); ks = [k for k in CV.curves if k.name == name]
        c.oblige_by('supported', len(ks) == 1, 'computed'); k = ks[0]; cv, g = it.getattr(k, 'curve'), it.getattr(k, 'generator')
        oid, p0, a0, b0, x0, y0, n0 = STANDARD[name]
        p, a, b = [it.call(it.getattr(cv, m), []) for m in ('p', 'a', 'b')]; x, y, n = [it.call(it.getattr(g, m), []) for m in ('x', 'y', 'order')]; n2 = it.getattr(k, 'order')
        def ob(nm, ok, note=None): c.oblige_by(nm, bool(ok), 'computed', repr(note)[:300])
        ob('the published field', p == p0, p); ob('the published equation', (a - a0) % p0 == 0 and (b - b0) % p0 == 0, (a, b)); ob('the published base point', (x, y) == (x0, y0), (x, y)); ob('the published order', n == n0 and n2 == n0, (n, n2))
        ob('the published identifier', tuple(it.getattr(k, 'oid')) == oid, k.oid); ob('the base point is of this curve', it.call(it.getattr(g, 'curve'), []) is cv)
        if prime(p) or p != p0: ob('the field is prime', prime(p), p)
        else: c.trust('the field of %s is prime' % name)
        if prime(n) or n != n0: ob('the order is prime', prime(n), n)
        else: c.trust('the order of %s is prime (no certificate found)' % name)
        ob('not singular', (4 * a ** 3 + 27 * b * b) % p != 0); ob('the base point is on it', 0 <= x < p and 0 <= y < p and (y * y - x ** 3 - a * x - b) % p == 0 and it.truth(it.call(it.getattr(cv, 'contains_point'), [x, y])) is True)
        ob('the base point has that order', times(n, (x, y), a, p) is None); r = math.isqrt(p) + 1
        ob('there are no other points', n > 4 * r and p + 1 - 2 * r <= n <= p + 1 + 2 * r)
def k_oid(it, a, kw):
    it.c.trust('contract of encode_oid (proved under C13)'); x = rcat(norm('t', [('L', tuple(v for v in a if not isinstance(v, Splat)))]), *[norm('t', list(v.rope.segs)) for v in a[-1:] if isinstance(v, Splat)])
    oblige_eq(it, 'the whole identifier', x, it.c.extra['oid']); return it.c.extra['enc']
@unit('C48', 'what a curve announces follows from its order', reach=['end'], contracts={D.encode_oid: k_oid, CV.orderlen: k_orderlen})
def u2(it):
    c = it.c; e = c.extra; n = c.fresh('order', 1); p = c.fresh("p", 3); g = AObj(order=Fn(lambda it, a, kw: n)); cv = AObj(p=Fn(lambda it, a, kw: p)); e['oid'] = whole(Sym('oid', c.fresh('n_oid', 2), 0, None), 't'); e['enc'] = whole(Sym('encoded', c.fresh('n_enc', 0)))
    k = it.call(CV.Curve, ['a name', cv, g, e['oid']]); l = it.getattr(k, 'baselen')
    for nm, v in (('name', 'a name'), ('curve', cv), ('generator', g)): c.oblige_by(nm, it.getattr(k, nm) is v or it.getattr(k, nm) == v, 'path')
    c.oblige('the order of the base point', it.eqb(it.getattr(k, 'order'), n)); c.oblige_by('the identifier', it.getattr(k, 'oid') is e['oid'], 'path'); c.oblige_by('encoded', it.getattr(k, 'encoded_oid') is e['enc'], 'path')
    c.oblige('the bytes of the order', it.eqb(l, ndigits(256, n)))
    for f in ('verifying_key_length', 'signature_length'): c.oblige(f + ': two numbers of that length', it.eqb(it.getattr(k, f), s_mul(2, l)))
