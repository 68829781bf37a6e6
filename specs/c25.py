"""C25: private keys stay out of printed and public forms: two wallets whose private keys are unrelated and whose public data agree print and export alike"""
from .wallet import *
def same_text(it, what, x, y): oblige_eq(it, what + ': the same for both private keys', x, y)
def text(it, x): return it.call(str, [x])
def others(it, a, b):
    """further printed forms, where the class defines them"""
    for n, x in (('__repr__', []), ('__format__', [''])):
        if any(n in k.__dict__ for k in type(a).__mro__ if k is not object): same_text(it, n, *[it.call(it.getattr(w, n), list(x)) for w in (a, b)])
def hd(it, ds, g): mk, f = node(it, g, None); return [mk(d) for d in ds]
def addresses(it, ds):
    c = it.c; comp = bool(c.choose(2)); vcn = c.fresh('vcn', 0); testnet = bool(c.choose(2)); return [it.call(Address, [], dict(privKey=wif(payload(d, comp)), vcn=vcn, testnet=testnet)) for d in ds]
@unit('C25', 'the printed form of an address', contracts=CON, reach=['end'])
def u0(it):
    g, t, ds = twins(it); a, b = addresses(it, ds)
    same_text(it, 'str', text(it, a), text(it, b)); others(it, a, b)
@unit('C25', 'the printed form of an HD wallet', contracts=CON, reach=['end'])
def u1(it):
    g, t, ds = twins(it); c = it.c; a, b = hd(it, ds, g)
    if c.choose(2): point_of(it, a)           # whatever was asked before
    same_text(it, 'str', text(it, a), text(it, b)); others(it, a, b)
@unit('C25', 'the public parts of an HD wallet', contracts=CON, reach=['end'])
def u2(it):
    g, t, ds = twins(it); c = it.c; a, b = hd(it, ds, g)
    kw = {} if c.choose(2) else dict(include_prv=False)
    x, y = [it.call(it.getattr(w, 'to_extended_key'), [], dict(kw)) for w in (a, b)]; same_text(it, 'the extended public key', x, y)
    for n in ('pubkey', 'chain', 'address', 'fingerprint', 'parentfp'): same_text(it, n, *[it.call(it.getattr(w, n), []) for w in (a, b)])
    for n in ('depth', 'childnum'): c.oblige(n + ': the same for both private keys', it.eqb(*[it.call(it.getattr(w, n), []) for w in (a, b)]))
    # the watch-only wallet read from it, and what is saved of it
    cfgs = []
    for w, e in ((a, x), (b, y)): v = it.call_body(HDWallet.from_extended_key, [e], dict(vcn=it.getattr(w, 'vcn'))); cfgs.append(it.call(it.getattr(v, 'dump_to_cfg'), [])); same_text(it, 'the watch-only wallet', text(it, v), text(it, v))
    alike(it, *cfgs)
def alike(it, p, q):
    c = it.c; c.oblige_by('the saved fields', set(p) == set(q), 'path')
    for n in p:
        if p[n] is None or q[n] is None: c.oblige_by('saved watch-only, %s' % n, p[n] is q[n], 'path')
        else: oblige_eq(it, 'saved watch-only, %s' % n, p[n], q[n])
    c.oblige_by('no private key is saved', p['prvkey'] is None, 'path')
@unit('C25', 'the public parts of an address', contracts=CON, reach=['end'])
def u3(it):
    g, t, ds = twins(it); c = it.c; a, b = addresses(it, ds)
    for n in ('pubKey', 'address'): same_text(it, n, *[it.getattr(w, n) for w in (a, b)])
    same_text(it, 'publicKey', *[it.call(it.getattr(w, 'publicKey'), []) for w in (a, b)])
    vs = [it.call(Address, [], dict(pubKey=it.call(it.getattr(w, 'publicKey'), []), vcn=it.getattr(w, 'vcn'), testnet=it.getattr(w, 'testnet'))) for w in (a, b)]
    same_text(it, 'the watch-only wallet', *[text(it, v) for v in vs]); alike(it, *[it.call(it.getattr(v, 'dump_to_cfg'), []) for v in vs])
