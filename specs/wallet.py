"""What the specifications of the wallets share (C21 to C25)."""
from .common import *
from .ec import *
from .c12 import k_n2s
from .wif import WIF, wif
from .c39 import k_address
from nbc import wallet as W
from nbc.wallet import address as AD, hdwallet as HD
from nbc.util import key as KEY, ecc
from nbc.util.ecdsa import util as U, curves
ORDER = curves.SECP256k1.order
Address, HDWallet = AD.Address, HD.HDWallet
def k_b58decode(it, a, kw):
    r = is_app(a[0], 'b58text')
    if r is None: raise Unsupported('another text')
    it.c.trust('contract of b58decode (proved under C01)'); return r[0]
CON = {**WIF, base58.b58encode: k_b58encode, base58.b58decode: k_b58decode, U.number_to_string: k_n2s, KEY.publickey_to_address: k_address}
def k_compress(g):
    """C04"""
    def k(it, a, kw):
        c = it.c; c.trust('contract of compress_public_key (proved under C04)')
        for k, x, y in g.reps:
            if c.quick(it.eqb(a[0], full(g, k))): return short(g, k)
        raise Unsupported('another public key')
    return k
def k_root(g):
    """C08: square_root_mod_prime"""
    def k(it, a, kw):
        c = it.c; v, m = a; cv = curves.SECP256k1.curve; c.trust('contract of square_root_mod_prime (proved under C08); a number has at most two square roots modulo a prime')
        c.oblige_by('a root modulo the field prime', same(m, g.p), 'path'); c.oblige('of a reduced number', s_and(s_le(0, v), s_lt(v, g.p)))
        for k, x, y in g.reps:
            x = c.norm(x)
            if poly.is_zero(s_add(c.norm(v), -s_add(s_mul(s_mul(x, x), x), s_add(s_mul(cv.a(), x), cv.b()))), g.p, []):
                r = c.fresh('root', 0, record=False); c.fact(s_lt(r, g.p)); c.fact(s_or(s_eq(r, y), s_and(s_eq(r, s_add(g.p, -y)), s_not(s_eq(y, 0))))); return r
        raise Unsupported('the root of another number')
    return k
def world(it):
    c = it.c; g = secp256k1(it); made = it.contracts[EC.Point]
    def k_point(it, a, kw):
        if len(a) >= 3 and a[0] is curves.SECP256k1.curve:
            for k, x, y in g.reps:
                if c.quick(it.eqb(a[1], x)):
                    if c.decide(it.eqb(a[2], y)): return GP(g, k)
                    if c.decide(it.eqb(s_add(a[2], y), g.p)): return GP(g, s_mul(-1, k))
        return made(it, a, kw)
    it.contracts.update({KEY.compress_public_key: k_compress(g), KEY.decompress_public_key: k_decompress(g), HD.numbertheory.square_root_mod_prime: k_root(g), EC.Point: k_point,
        curves.orderlen: lambda it, a, kw: ndigits(256, a[0])})
    return g
def secret(it, g, name='secret'):
    c = it.c; d = c.fresh(name, 1); c.assume(s_lt(d, g.n)); c.fact(s_lt(0, g.Y(d)))      # no point of order two (C04)
    return d
def payload(d, comp): return rcat(be32(d), b'\x01') if comp else be32(d)
def a_vcn(it, c):
    """a network number: any number, or left to chance"""
    return None if c.choose(2) else c.fresh('vcn', 0)

def twins(it):
    """two secrets, unrelated numbers, whose public point is the same: what does not tell them apart depends on the public point alone"""
    c = it.c; g = world(it); t = secret(it, g, 'point'); ds = []
    for n in ('secret1', 'secret2'): d = c.fresh(n, 1); c.assume(s_lt(d, g.n)); ds.append(d)
    mul = it.contracts[EC.Point.__dict__['__mul__']]
    def k_mul(it, a, kw):
        if a[0] is curves.SECP256k1.generator and any(c.quick(it.eqb(a[1], d)) for d in ds): return GP(g, t)
        raise Unsupported('another multiple')
    P = EC.Point.__dict__; it.contracts.update({P['__mul__']: k_mul, P['__rmul__']: k_mul}); return g, t, ds
def node(it, g, key, vcn=None):
    """any HD wallet node with this key"""
    c = it.c; chain = whole(Sym('chain', 32)); c.inputs['chain'] = chain; testnet = bool(c.choose(2)); vcn = c.fresh('vcn', 0) if vcn is None else vcn; f = dict(chain=chain, testnet=testnet, vcn=s_divmod(vcn, 65536)[1])
    kw = dict(vcn=vcn, testnet=testnet)
    if c.choose(2): f.update(depth=0, parentfp=b'\0' * 4, childnum=0)
    else:
        f.update(depth=c.fresh('depth', 1), parentfp=whole(Sym('parentfp', 4)), childnum=c.fresh('childnum', 0)); c.assume(s_lt(f['depth'], 256)); c.assume(s_lt(f['childnum'], 1 << 32))
        kw.update(depth=f['depth'], parentfp=f['parentfp'], childnum=f['childnum'])
    return lambda k=key: it.call(HDWallet, [k, chain], dict(kw)), f
def point_of(it, w): return it.call(it.getattr(w, 'point'), [])
def check_node(it, g, w, d, priv, f, what=''):
    """w is the node f with the private key d, or with its public point alone"""
    c = it.c; call = lambda n, *a: it.call(it.getattr(w, n), list(a))
    p = point_of(it, w)
    if c.oblige_by(what + 'a public point', isinstance(p, GP), 'path', repr(p)): c.oblige(what + 'the public point', g.is_inf(s_add(p.k, s_mul(-1, d))))
    pk = call('prvkey')
    if priv: oblige_eq(it, what + 'the private key', pk, be32(d))
    else: c.oblige_by(what + 'no private key', pk is None, 'path', repr(pk))
    if 'chain' in f: oblige_eq(it, what + 'the chain code', call('chain'), f['chain'])
    for n in ('depth', 'childnum'): c.oblige(what + n, it.eqb(call(n), f[n]))
    oblige_eq(it, what + 'the parent fingerprint', call('parentfp'), f['parentfp'])
    if 'vcn' in f: c.oblige(what + 'the vcn', it.eqb(it.getattr(w, 'vcn'), f['vcn']))
    x = is_app(call('address'), 'address')
    if c.oblige_by(what + 'an address text', x is not None, 'path'):
        oblige_eq(it, what + 'of the compressed public key', x[0], short(g, d)); oblige_eq(it, what + 'for the network', x[2], b'\x6f' if f['testnet'] else b'\0'); c.oblige(what + 'for the vcn', it.eqb(x[1], it.getattr(w, 'vcn')))
