"""C43: signatures of HD wallets"""
from .wallet import *
from .c22 import public
def signing(it, g, d, data):
    """contracts of ecc.sign and ecc.verify (proved under C10 and C11), for the key d: a signature is a term over the data and the private key, and is valid for that data and the matching public key alone"""
    c = it.c; c.trust('contracts of ecc.sign and ecc.verify (proved under C10 and C11)')
    def k_sign(it, a, kw):
        if not c.oblige_by('signed with data and private key', len(a) == 2 and not kw, 'path'): raise PathEnd()
        oblige_eq(it, 'the private key, 32 bytes', a[1], be32(d)); return app('sig', (a[0], a[1]), c.fresh('siglen', 1, record=False))
    def k_verify(it, a, kw):
        if not c.oblige_by('verified with data, public key and signature', len(a) == 3 and not kw, 'path'): raise PathEnd()
        pk = a[1]
        if c.quick(s_eq(rlen(pk), 33)): oblige_eq(it, 'the public key', pk, short(g, d))
        else: oblige_eq(it, 'the public key', pk, full(g, d))
        x = is_app(a[2], 'sig')
        if x is not None and c.quick(s_and(it.eqb(x[0], a[0]), it.eqb(x[1], be32(d)))): return True
        asked.append((a[0], a[2])); return SBool_of(it, 'verdict')
    asked = []
    it.contracts[ecc.sign] = k_sign; it.contracts[ecc.verify] = k_verify; return asked
def SBool_of(it, name): b = it.c.extra['verdict'] = it.c.fresh_bool(name); return b
def wallet(it, g, d, priv, f=None):
    mk, f = node(it, g, d if priv else GP(g, d)); return mk(), f
@unit('C43', 'what a wallet with its private key signs verifies', contracts=CON, reach=['end'])
def u0(it):
    g = world(it); c = it.c; d = secret(it, g); mk, f = node(it, g, d); w = mk(); data = whole(Sym('data', c.fresh('len', 0))); c.inputs['data'] = data; signing(it, g, d, data)
    s = it.call(it.getattr(w, 'sign'), [data]); x = is_app(s, 'sig')
    if c.oblige_by('a signature', x is not None, 'path', repr(s)): oblige_eq(it, 'of the data', x[0], data)
    ok = lambda o: it.truth(it.call(it.getattr(o, 'verify'), [data, s])) is True
    c.oblige_by('verifies with the wallet', ok(w), 'path')
    c.oblige_by('verifies with the public key alone', ok(mk(GP(g, d))), 'path')
    v = it.call_body(HDWallet.from_extended_key, [it.call(it.getattr(w, 'to_extended_key'), [])], {}); c.oblige_by('verifies with the wallet read from the extended public key', ok(v), 'path')
    v = it.call_body(HDWallet.from_extended_key, [it.call(it.getattr(w, 'to_extended_key'), [], dict(include_prv=True))], {}); c.oblige_by('verifies with the wallet read from the extended private key', ok(v), 'path')
    t = it.call(it.getattr(v, 'sign'), [data]); oblige_eq(it, 'which signs the same data', is_app(t, 'sig')[0], data)
    A = it.call(Address, [], dict(pubKey=public(g, d, bool(c.choose(2))), vcn=0)); c.oblige_by('verifies with the address of the key', ok(A), 'path')
@unit('C43', 'any other signature is judged by the public key', contracts=CON, reach=['yes', 'no'])
def u1(it):
    g = world(it); c = it.c; d = secret(it, g); w, f = wallet(it, g, d, bool(c.choose(2))); data = whole(Sym('data', c.fresh('len', 0))); s = whole(Sym('signature', c.fresh('siglen', 0))); c.inputs.update(data=data, signature=s)
    asked = signing(it, g, d, data); r = it.call(it.getattr(w, 'verify'), [data, s])
    if not c.oblige_by('judged once', len(asked) == 1, 'path', repr(len(asked))): return
    oblige_eq(it, 'the data', asked[0][0], data); oblige_eq(it, 'the signature', asked[0][1], s)
    t = it.truth(r) if not isinstance(r, (bool, SBool)) else r
    c.oblige('the verdict', s_iff(t, c.extra['verdict'])); c.reach('yes' if c.decide(t) else 'no')
@unit('C43', 'a wallet without its private key does not sign', contracts=CON, reach=['refused'])
def u2(it):
    g = world(it); c = it.c; d = secret(it, g); w, f = wallet(it, g, d, False); data = whole(Sym('data', c.fresh('len', 0))); c.inputs['data'] = data
    def k_sign(it, a, kw): c.oblige_by('nothing is signed', False, 'path'); raise PathEnd()
    it.contracts[ecc.sign] = k_sign
    if c.choose(2): point_of(it, w)
    try: r = it.call(it.getattr(w, 'sign'), [data]); e = None
    except ProgExc as x: e = x.exc
    c.oblige_by('ValueError', isinstance(e, ValueError), 'path', repr(e)); c.reach('refused')
