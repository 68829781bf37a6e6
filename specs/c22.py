"""C22: addresses and their keys"""
from .wallet import *
@unit('C22', "the first character of a private key's text", reach=['end'])
def lead(it):
    c = it.c
    for comp in (False, True):
        k = whole(Sym('key', 32)); t = k_encode_check(it, [rcat(b'\x80', k, b'\x01' if comp else b'')], {}); ch = rindex(t, 0)
        c.oblige('51 or 52 characters', s_eq(rlen(t), 52 if comp else 51)); c.oblige("it is 5, or K or L for a compressed key", s_or(s_eq(ch, 75), s_eq(ch, 76)) if comp else s_eq(ch, 53))
from .c03 import k_encode_check
def public(g, d, comp): return short(g, d) if comp else full(g, d)
def check(it, g, A, d, comp, vcn, testnet, priv, what=''):
    """A is the address of secret d"""
    c = it.c; at = lambda n: it.getattr(A, n); T = lambda v: it.truth(v)
    oblige_eq(it, what + 'the public key is the generator times the secret', at('pubKey'), full(g, d)); c.oblige_by(what + 'compressed when the text of the key says so', T(at('compressed')) is comp, 'path')
    oblige_eq(it, what + 'the public key in that form', it.call(at('publicKey'), []), public(g, d, comp))
    c.oblige_by(what + 'the network', T(at('testnet')) is testnet, 'path')
    if vcn is None: c.oblige(what + 'a network number', s_and(s_le(0, at('vcn')), s_le(at('vcn'), 0xffff)))
    else: c.oblige(what + 'the vcn', s_eq(at('vcn'), s_divmod(vcn, 65536)[1]))
    x = is_app(at('address'), 'address')
    if c.oblige_by(what + 'an address text', x is not None, 'path', repr(at('address'))):
        oblige_eq(it, what + 'of the public key', x[0], public(g, d, comp)); c.oblige(what + 'for the vcn', it.eqb(x[1], at('vcn'))); oblige_eq(it, what + 'for the network', x[2], b'\x6f' if testnet else b'\0')
    if priv: oblige_eq(it, what + 'the private key', at('privKey'), wif(payload(d, comp)))
    else: c.oblige_by(what + 'no private key', at('privKey') is None, 'path')
def build(it, g, priv):
    c = it.c; d = secret(it, g); comp = bool(c.choose(2)); testnet = bool(c.choose(2)); vcn = a_vcn(it, c)
    key = dict(privKey=wif(payload(d, comp))) if priv else dict(pubKey=public(g, d, comp))
    kw = dict(key, vcn=vcn, testnet=testnet)
    if vcn is None and c.choose(2): del kw['vcn']
    A = it.call(Address, [], kw); return A, d, comp, vcn, testnet
for priv in (True, False):
    w = 'a private key' if priv else 'a public key'
    @unit('C22', 'made from %s' % w, contracts=CON, reach=['end'])
    def u0(it, priv=priv):
        g = world(it); A, d, comp, vcn, testnet = build(it, g, priv); check(it, g, A, d, comp, vcn, testnet, priv)
    @unit('C22', 'compressing and decompressing, made from %s' % w, contracts=CON, reach=['end'])
    def u1(it, priv=priv):
        g = world(it); c = it.c; A, d, comp, vcn, testnet = build(it, g, priv); n = it.getattr(A, 'vcn')
        B = it.call(it.getattr(A, 'compress'), []); check(it, g, B, d, True, n, testnet, priv, 'compressed: ')
        D = it.call(it.getattr(A, 'decompress'), []); check(it, g, D, d, False, n, testnet, priv, 'decompressed: ')
        E = it.call(it.getattr(B if not comp else D, 'decompress' if not comp else 'compress'), []); check(it, g, E, d, comp, n, testnet, priv, 'undone: ')
        check(it, g, A, d, comp, n, testnet, priv, 'the address itself is kept: ')
@unit('C22', 'a new address', contracts={**CON, AD.randrange: None}, reach=['end'])
def u2(it):
    g = world(it); c = it.c; c.trust('contract of randrange (proved under C16)'); d = secret(it, g)
    def k(it, a, kw): c.oblige('random below the order', it.eqb(a[0], ORDER)); return d
    it.contracts[AD.randrange] = k
    vcn = a_vcn(it, c); kw = {} if vcn is None else dict(vcn=vcn); testnet = False; comp = True
    if c.choose(2): kw['testnet'] = testnet = bool(c.choose(2))
    if c.choose(2): kw['compressed'] = comp = bool(c.choose(2))
    check(it, g, it.call(Address.generate, [], kw), d, comp, vcn, testnet, True)
@unit('C22', 'signing and verifying', contracts=CON, reach=['end', 'no private key'])
def u3(it):
    g = world(it); c = it.c; A, d, comp, vcn, testnet = build(it, g, bool(c.choose(2))); data = whole(Sym('data', c.fresh('len', 0))); c.inputs['data'] = data; c.trust('contracts of ecc.sign and ecc.verify (proved under C11)')
    def k_sign(it, a, kw): oblige_eq(it, 'the private key', a[1], be32(d)); return app('sig', (a[0], a[1]), c.fresh('siglen', 1, record=False))
    def k_verify(it, a, kw): oblige_eq(it, 'the public key', a[1], full(g, d)); x = is_app(a[2], 'sig'); return x is not None and c.quick(s_and(it.eqb(x[0], a[0]), it.eqb(x[1], be32(d))))
    it.contracts[ecc.sign] = k_sign; it.contracts[ecc.verify] = k_verify
    try: s = it.call(it.getattr(A, 'sign'), [data])
    except ProgExc as e:
        c.oblige_by('ValueError', isinstance(e.exc, ValueError), 'path', repr(e.exc)); c.oblige_by('refused only without a private key', it.getattr(A, 'privKey') is None, 'path'); c.reach('no private key'); return
    c.oblige_by('a private key is needed', it.getattr(A, 'privKey') is not None, 'path')
    c.oblige_by('what is signed verifies', it.truth(it.call(it.getattr(A, 'verify'), [data, s])) is True, 'path')
    B = it.call(Address, [], dict(pubKey=public(g, d, not comp), vcn=0)); c.oblige_by('also under the public key alone', it.truth(it.call(it.getattr(B, 'verify'), [data, s])) is True, 'path')
def refused(it, kw, what):
    try: it.call(Address, [], kw); e = None
    except ProgExc as x: e = x.exc
    it.c.oblige_by(what, isinstance(e, Exception), 'path', repr(e))
@unit('C22', 'both keys, or none', contracts=CON, reach=['end'])
def u4(it):
    g = world(it); c = it.c; d, e = secret(it, g), secret(it, g, 'other'); comp, comq = bool(c.choose(2)), bool(c.choose(2)); vcn = c.fresh('vcn', 0)
    refused(it, dict(privKey=wif(payload(d, comp)), pubKey=public(g, e, comq), vcn=vcn), 'both keys are refused')
    for no in (None, b''):
        for nu in (None, b''): refused(it, dict(privKey=no, pubKey=nu, vcn=vcn), 'no key is refused')
    refused(it, {}, 'no key is refused')
@unit('C22', 'a malformed public key', contracts=CON, reach=['end'])
def u5(it):
    g = world(it); c = it.c; L = c.fresh('len', 0); k = whole(Sym('key', L)); c.inputs['key'] = k; c.trust('contract of decompress_public_key (proved under C04)')
    def bad(it, a, kw): raise ProgExc(ValueError('not a public key'))       # the key is not one: C04 says it is refused
    it.contracts[KEY.decompress_public_key] = bad
    refused(it, dict(pubKey=k, vcn=0), 'refused')
@unit('C22', 'a malformed private key', contracts=CON, reach=['end', 'not a key', 'out of range'])
def u6(it):
    g = world(it); c = it.c; L = c.fresh('len', 0); k = whole(Sym('key', L)); c.inputs['key'] = k
    def other(it, a, kw):
        oblige_eq(it, 'the text given', a[0], k)
        if c.choose(2): c.reach('not a key'); raise ProgExc(ValueError('not a private key'))
        v = c.fresh('secret', 0); c.assume(s_lt(v, 1 << 256)); c.assume(s_or(s_eq(v, 0), s_le(ORDER, v))); c.reach('out of range'); return be32(v)
    it.contracts[KEY.privkey_from_wif] = other
    refused(it, dict(privKey=k, vcn=0), 'refused')
