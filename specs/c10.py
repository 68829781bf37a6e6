"""C10: what is signed verifies"""
from .common import *
from .ec import *
from .c12 import DER, NUM, fixed, dersig, low
from nbc.util.ecdsa import ecdsa as E, keys as K, util as U
def F(cls, n): v = cls.__dict__[n]; return getattr(v, '__func__', v)
def key(it, g):
    """a private key d of the group"""
    c = it.c; d = c.fresh('secret', 1); c.assume(s_lt(d, g.n)); g.point(d); return d
def pubkey(it, g, d): return it.call(E.Public_key, [g.G, GP(g, d)])
def signature(it, g, d, z, k):
    """the numbers r, s of a signature of z with nonce k"""
    c = it.c; r = s_divmod(g.X(k), g.n)[1]; s = c.fresh('s', 1); c.assume(s_lt(s, g.n)); c.assume(s_not(s_eq(r, 0)))
    za = poly.atom_of(z)
    if za is None: raise Unsupported('the digest is not a variable')
    g.subs[za] = s_add(s_mul(s, k), -s_mul(d, r))              # s k = z + d r  (mod n)
    return r, s
@unit('C10', 'the equations of a signature', reach=['signed', 'r is zero', 's is zero'])
def u0(it):
    c = it.c; g = Group(it); d = key(it, g); z = c.fresh('digest', 0); k = c.fresh('nonce', 1); c.assume(s_lt(k, g.n)); g.point(k)
    pk = pubkey(it, g, d)
    sk = it.call(E.Private_key, [pk, d]); i = g.k_inverse(it, [k, g.n], {}); r0 = s_divmod(g.X(k), g.n)[1]
    s0 = s_divmod(s_mul(i, s_add(z, s_divmod(s_mul(d, r0), g.n)[1])), g.n)[1]
    try: sig = it.call(it.getattr(sk, 'sign'), [z, k])
    except ProgExc as e:
        c.oblige_by('reported as an unlucky nonce', isinstance(e.exc, RuntimeError), 'path', repr(e.exc))
        rz = c.decide(s_eq(r0, 0)); c.oblige('only when a component is zero', s_or(rz, s_eq(s0, 0))); c.reach('r is zero' if rz else 's is zero'); return
    r, s = it.getattr(sig, 'r'), it.getattr(sig, 's')
    c.oblige('r in range', s_and(s_le(1, r), s_lt(r, g.n))); c.oblige('s in range', s_and(s_le(1, s), s_lt(s, g.n)))
    c.oblige('r is the x coordinate of the nonce point modulo the order', s_eq(r, r0))
    poly.oblige_zero(it, 's k = z + d r modulo the order', s_add(s_mul(s, k), -s_add(z, s_mul(d, r))), g.n, g.rules); c.reach('signed')
@unit('C10', 'a signature that satisfies the equations is accepted', reach=['end'])
def u1(it):
    c = it.c; g = Group(it); d = key(it, g); z = c.fresh('digest', 0); k = c.fresh('nonce', 1); c.assume(s_lt(k, g.n)); g.point(k)
    r, s = signature(it, g, d, z, k); pk = pubkey(it, g, d)
    c.oblige_by('accepted', it.truth(it.call(it.getattr(pk, 'verifies'), [z, E.Signature(r, s)])) is True, 'path')
def k_sign(g, d, st):
    def k(it, a, kw):
        c = it.c; me, z, nonce = a
        c.oblige('the secret is that of the key', it.eqb(it.getattr(me, 'secret_multiplier'), d))
        c.oblige('the nonce is in range', s_and(s_le(1, nonce), s_lt(nonce, g.n)))
        st.update(z=z, k=nonce)
        if c.choose(2): c.reach('unlucky'); raise ProgExc(RuntimeError('unlucky'))
        g.point(nonce); r, s = signature(it, g, d, z, nonce); st.update(r=r, s=s); return E.Signature(r, s)
    return k
def k_verifies(g, d, st):
    def k(it, a, kw):
        c = it.c; me, z, sig = a
        c.oblige('the public point is that of the key', g.is_inf(s_add(it.getattr(me, 'point').k, -d)))
        c.oblige('the generator is that of the curve', g.is_inf(s_add(it.getattr(me, 'generator').k, -1)))
        c.oblige('the digest that was signed', it.eqb(z, st['z'])); r, s = it.getattr(sig, 'r'), it.getattr(sig, 's')
        ok = s_and(it.eqb(r, st['r']), it.eqb(s, st['s']))
        if not c.oblige('the numbers that were signed', ok): raise Unsupported('other numbers')
        return True
    return k
FORMS = [('strings', U.sigencode_string, U.sigdecode_string), ('pair', U.sigencode_strings, U.sigdecode_strings), ('DER', U.sigencode_der, U.sigdecode_der)]
CANON = [('canonical string', U.sigencode_string_canonize, U.sigdecode_string)]
for fn, enc, dec in FORMS:
    for how in ('nonce given', 'random nonce', 'data'):
        @unit('C10', 'sign then verify: %s, %s' % (fn, how), contracts=DER, reach=['accepted', 'unlucky'])
        def u2(it, enc=enc, dec=dec, how=how):
            c = it.c; g = Group(it); d = key(it, g); cv = Curve(it, g); st = {}; rnd = []
            it.contracts[F(E.Private_key, 'sign')] = k_sign(g, d, st); it.contracts[F(E.Public_key, 'verifies')] = k_verifies(g, d, st)
            def k_rand(it, a, kw):
                c.oblige('random below the order', it.eqb(a[0], g.n)); v = c.fresh('random', 1); c.assume(s_lt(v, g.n)); rnd.append(v); return v
            it.contracts[U.randrange] = k_rand
            sk = it.call(it.getattr(K.SigningKey, 'from_secret_exponent'), [d, cv]); vk = it.call(it.getattr(sk, 'get_verifying_key'))
            L = c.fresh('len', 1); c.assume(s_le(L, cv.at['baselen'])); dg = whole(Sym('digest', L)); c.inputs['digest'] = dg
            data = Opaque(('data',)); hf = Fn(lambda it, a, kw: AObj(digest=Fn(lambda it, x, kw: dg if a == [data] else unsup())))
            kw = dict(sigencode=enc)
            if how == 'nonce given': k = kw['k'] = c.fresh('nonce', 1); c.assume(s_lt(k, g.n))
            try:
                if how == 'data': w = it.call(it.getattr(sk, 'sign'), [data], dict(kw, hashfunc=hf))
                else: w = it.call(it.getattr(sk, 'sign_digest'), [dg], kw)
            except ProgExc as e: c.oblige_by('only the unlucky nonce is refused', isinstance(e.exc, RuntimeError) and 'k' in st and 'r' not in st, 'path', repr(e.exc)); return
            c.oblige('the digest is signed', it.eqb(st['z'], val(dg))); c.oblige('with the nonce', it.eqb(st['k'], k if how == 'nonce given' else rnd[0]))
            if how == 'data': ok = it.call(it.getattr(vk, 'verify'), [w, data], dict(hashfunc=hf, sigdecode=dec))
            else: ok = it.call(it.getattr(vk, 'verify_digest'), [w, dg], dict(sigdecode=dec))
            c.oblige_by('accepted', ok is True, 'path', repr(ok)); c.reach('accepted')
def unsup(): raise Unsupported('other data')
@unit('C10', 'a digest longer than the curve is refused by both', contracts=DER, reach=['end'])
def u3(it):
    c = it.c; g = Group(it); d = key(it, g); cv = Curve(it, g)
    sk = it.call(it.getattr(K.SigningKey, 'from_secret_exponent'), [d, cv]); vk = it.call(it.getattr(sk, 'get_verifying_key'))
    L = c.fresh('len', 1); c.assume(s_lt(cv.at['baselen'], L)); dg = whole(Sym('digest', L))
    for o, a in ((sk, ('sign_digest', [dg])), (vk, ('verify_digest', [Opaque(('sig',)), dg]))):
        try: it.call(it.getattr(o, a[0]), a[1]); ok = None
        except ProgExc as e: ok = e.exc
        c.oblige_by('%s refuses' % a[0], isinstance(ok, K.BadDigestError), 'path', repr(ok))
@unit('C10', 'a key is made of a secret in range and its public point', contracts=DER, reach=['made', 'refused'])
def u4(it):
    c = it.c; g = Group(it); cv = Curve(it, g); d = c.fresh('secret'); ok = s_and(s_le(1, d), s_lt(d, g.n))
    try: sk = it.call(it.getattr(K.SigningKey, 'from_secret_exponent'), [d, cv])
    except ProgExc as e: c.oblige('only a secret out of range is refused', s_not(ok)); c.reach('refused'); return
    if not c.oblige('a secret out of range is refused', ok): return
    P = it.getattr(it.getattr(it.call(it.getattr(sk, 'get_verifying_key')), 'pubkey'), 'point')
    c.oblige('the public point', g.is_inf(s_add(P.k, -d))); c.oblige('the secret', it.eqb(it.getattr(it.getattr(sk, 'privkey'), 'secret_multiplier'), d)); c.reach('made')
