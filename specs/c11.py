"""C11: what verification accepts"""
from .common import *
from .ec import *
from .c10 import key, pubkey, F, signature
from .c12 import DER, NUM, fixed, dersig, k_rem_int
from nbc.util.ecdsa import ecdsa as E, keys as K, util as U, der as D, curves
from nbc.util import ecc, key as KEY
from nbc.util import hash as H
def inrange(g, r, s): return s_and(s_le(1, r), s_lt(r, g.n), s_le(1, s), s_lt(s, g.n))
@unit('C11', 'verification is the ECDSA condition', reach=['accepted', 'out of range', 'infinity', 'another x'])
def u0(it):
    c = it.c; g = Group(it); d = key(it, g); z = c.fresh('digest'); r, s = c.fresh('r'), c.fresh('s'); pk = pubkey(it, g, d); sig = E.Signature(r, s)
    f = lambda: it.truth(it.call(it.getattr(pk, 'verifies'), [z, sig]))
    if not c.decide(inrange(g, r, s)): c.oblige_by('a component out of range', f() is False, 'path'); c.reach('out of range'); return
    w = g.k_inverse(it, [s, g.n], {}); e = s_mul(w, s_add(z, s_mul(r, d))); g.point(e)              # (z/s) G + (r/s) Q
    if c.decide(g.is_inf(e)): c.oblige_by('a sum at infinity', f() is False, 'path'); c.reach('infinity'); return
    ok = s_eq(s_divmod(g.X(e), g.n)[1], r); v = f(); c.oblige('accepted exactly when the x coordinate modulo the order is r', ok if v else s_not(ok)); c.reach('accepted' if v else 'another x')
def stub_verifies(g, d, st):
    def k(it, a, kw):
        c = it.c; me, z, sig = a
        c.oblige('the public point of the key', g.is_inf(s_add(it.getattr(me, 'point').k, -d))); c.oblige('the generator of the curve', g.is_inf(s_add(it.getattr(me, 'generator').k, -1)))
        st.update(z=z, r=it.getattr(sig, 'r'), s=it.getattr(sig, 's')); st['ok'] = c.fresh_bool('valid'); return st['ok']
    return k
@unit('C11', 'the key object accepts exactly what the equation accepts', contracts=DER, reach=['accepted', 'refused'])
def u1(it):
    c = it.c; g = Group(it); d = key(it, g); cv = Curve(it, g); st = {}; it.contracts[F(E.Public_key, 'verifies')] = stub_verifies(g, d, st)
    vk = it.call(it.getattr(K.VerifyingKey, 'from_public_point'), [GP(g, d), cv])
    L = c.fresh('len', 1); c.assume(s_le(L, cv.at['baselen'])); dg = whole(Sym('digest', L)); r, s = c.fresh('r'), c.fresh('s'); sg = Opaque(('signature',))
    def dec(it, a, kw): c.oblige_by('the signature is decoded for this order', a[0] is sg and same(a[1], g.n), 'path'); return (r, s)
    try: v = it.call(it.getattr(vk, 'verify_digest'), [sg, dg], dict(sigdecode=Fn(dec)))
    except ProgExc as e: v = e.exc
    if not c.oblige_by('the equation was asked', 'ok' in st, 'path', repr(v)): return
    c.oblige('for the digest and the decoded numbers', s_and(it.eqb(st['z'], val(dg)), it.eqb(st['r'], r), it.eqb(st['s'], s)))
    if c.decide(st['ok']): c.oblige_by('True when it holds', v is True, 'path', repr(v)); c.reach('accepted')
    else: c.oblige_by('a bad-signature error when it does not', isinstance(v, K.BadSignatureError), 'path', repr(v)); c.reach('refused')
# ---- the byte-level functions of the wallet
def setup(it):
    c = it.c; st = dict(made=[]); data = whole(Sym('data', c.fresh('len', 0))); c.inputs['data'] = data
    it.contracts[H.sha256d] = lambda it, a, kw: hashval('sha256', hashval('sha256', a[0]))
    return c, st, data
@unit('C11', 'a public key that is not a point', reach=['end'])
def u2(it):
    c, st, data = setup(it); key = whole(Sym('key', c.fresh('keylen', 0))); sig = whole(Sym('sig', c.fresh('siglen', 0))); asked = []
    def k_dec(it, a, kw): asked.append(a[0]); raise ProgExc(ValueError('invalid public key'))
    it.c.trust('contract of decompress_public_key (proved under C04): ValueError for what is not a point of the curve')
    it.contracts[KEY.decompress_public_key] = k_dec
    r = it.call(ecc.verify, [data, key, sig]); c.oblige_by('False', r is False, 'path', repr(r)); c.oblige_by('the key given was examined', len(asked) == 1 and it.c.entails(it.eqb(asked[0], key)), 'path')
class VK(SObj):
    """the verifying key of the point (x, y) of secp256k1"""
    def __init__(self, st): self.st = st
    def s_getattr(self, it, a):
        if a == 'verify_digest': return Fn(self.verify)
        raise Unsupported('attribute %s of a key' % a)
    def verify(self, it, a, kw):
        c = it.c; st = self.st; n = ('signature', 'digest', 'sigdecode'); kw = dict(zip(n, a), **kw)
        oblige_eq(it, 'the digest is the double SHA-256 of the data', kw['digest'], sha256d(st['data']))
        r, s = it.to_list(it.call(kw['sigdecode'], [kw['signature'], curves.SECP256k1.order])); st['rs'] = r, s
        v = st['ok'] = c.fresh_bool('valid')
        if c.decide(v): return True
        raise ProgExc(K.BadSignatureError())
@unit('C11', 'verifying bytes', contracts=DER, reach=['accepted', 'refused'])
def u3(it):
    c, st, data = setup(it); st['data'] = data; x, y = [whole(Sym(n, 32)) for n in 'xy']; full = rcat(b'\x04', x, y); key = whole(Sym('key', c.fresh('keylen', 1)))
    it.contracts[KEY.decompress_public_key] = lambda it, a, kw: full if c.entails(it.eqb(a[0], key)) else c.oblige_by('the key given is read', False, 'path')
    def k_from(it, a, kw):
        a = a[1:]; kw = dict(zip(('string', 'curve', 'hashfunc', 'validate_point'), a), **kw)
        oblige_eq(it, 'the key is the point of the public key', kw['string'], rcat(x, y)); c.oblige_by('of secp256k1', kw['curve'] is curves.SECP256k1, 'path'); return VK(st)
    it.contracts[F(K.VerifyingKey, 'from_string')] = k_from
    r, s = c.fresh('r', 0), c.fresh('s', 0); sig = dersig(r, s)
    v = it.call(ecc.verify, [data, key, sig])
    if not c.oblige_by('the equation was asked', 'ok' in st, 'path', repr(v)): return
    c.oblige('for the numbers of the signature', s_and(it.eqb(st['rs'][0], r), it.eqb(st['rs'][1], s)))
    c.oblige_by('the answer is that of the equation', v is c.decide(st['ok']), 'path', repr(v)); c.reach('accepted' if v else 'refused')
@unit('C11', 'signing bytes', contracts=DER, reach=['end'])
def u4(it):
    c, st, data = setup(it); key = whole(Sym('key', 32)); r, s = c.fresh('r', 1), c.fresh('s', 1)
    def sign(it, a, kw):
        kw = dict(zip(('digest', 'entropy', 'sigencode', 'k'), a), **kw)
        oblige_eq(it, 'the digest is the double SHA-256 of the data', kw['digest'], sha256d(data)); c.oblige_by('the nonce is random', kw.get('k') is None and kw.get('entropy') is None, 'path')
        return it.call(kw['sigencode'], [r, s, curves.SECP256k1.order])
    def k_from(it, a, kw):
        kw = dict(zip(('string', 'curve', 'hashfunc'), a[1:]), **kw); oblige_eq(it, 'the private key given', kw['string'], key)
        c.oblige_by('of secp256k1', kw['curve'] is curves.SECP256k1, 'path'); return AObj(sign_digest=Fn(sign))
    it.contracts[F(K.SigningKey, 'from_string')] = k_from
    oblige_eq(it, 'the DER signature', it.call(ecc.sign, [data, key]), dersig(r, s))
@unit('C11', 'no decoder changes the numbers it is given', contracts=DER, reach=['string', 'pair', 'DER'])
def u5(it):
    """whether or not they are in range: that is for the equation to decide"""
    c = it.c; n = c.fresh('order', 2); l = ndigits(256, n); how = c.choose(3)
    if how < 2:
        x, y = whole(Sym('r_bytes', l)), whole(Sym('s_bytes', l)); want = val(x), val(y)
        a = it.call(U.sigdecode_string, [rcat(x, y), n]) if how == 0 else it.call(U.sigdecode_strings, [(x, y), n]); c.reach(('string', 'pair')[how])
    else: want = c.fresh('r', 0), c.fresh('s', 0); a = it.call(U.sigdecode_der, [dersig(*want), n]); c.reach('DER')
    a, b = it.to_list(a); c.oblige('r', it.eqb(a, want[0])); c.oblige('s', it.eqb(b, want[1]))
