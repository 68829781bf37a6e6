"""C23: derivation of HD wallets"""
from .wallet import *
def be4(i): return mk_pos(256, None, i, 4)
def fp(g, d): return rslice(hashval('ripemd160', hashval('sha256', short(g, d))), 0, 4)
def macval(key, msg): return app('hmac-sha512', (key, msg), 64)
def derive(it, w, i):
    try: return it.call(it.getattr(w, 'child'), [i]), None
    except ProgExc as e: return None, e.exc
def index(it):
    c = it.c; i = c.fresh('index', 0); c.assume(s_lt(i, 1 << 32)); return i, c.decide(s_le(1 << 31, i))
@unit('C23', 'a child of a wallet with its private key', contracts=CON, reach=['hardened', 'not hardened', 'refused'])
def u0(it):
    g = world(it); c = it.c; d = secret(it, g); mk, f = node(it, g, d); w = mk(); i, hard = index(it)
    I = macval(f['chain'], rcat(b'\0', be32(d), be4(i)) if hard else rcat(short(g, d), be4(i))); IL, IR = val(rslice(I, 0, 32)), rslice(I, 32, 64); k = s_add(d, IL)
    bad = s_or(s_le(ORDER, IL), s_eq(s_divmod(k, ORDER)[1], 0), s_eq(f['depth'], 255)); bad = c.decide(bad)
    if not bad: g.point(k); g.point(s_divmod(k, ORDER)[1])
    r, e = derive(it, w, i)
    if r is None:
        c.oblige_by('refused only when BIP-32 has no such child', bad, 'path', repr(e)); c.reach('refused'); return
    if not c.oblige_by('refused when BIP-32 has no such child', not bad, 'path'): return
    pk = it.call(it.getattr(r, 'prvkey'), []); oblige_eq(it, 'the private key is the sum modulo the order', pk, be32(s_divmod(k, ORDER)[1]))
    check_node(it, g, r, s_divmod(k, ORDER)[1], True, dict(chain=IR, depth=s_add(f['depth'], 1), childnum=i, parentfp=fp(g, d), testnet=f['testnet'], vcn=f['vcn'])); c.reach('hardened' if hard else 'not hardened')
@unit('C23', 'a child of a wallet with its public key alone', contracts=CON, reach=['child', 'hardened is refused', 'refused'])
def u1(it):
    g = world(it); c = it.c; d = secret(it, g); mk, f = node(it, g, GP(g, d)); w = mk(); i, hard = index(it)
    I = macval(f['chain'], rcat(short(g, d), be4(i))); IL, IR = val(rslice(I, 0, 32)), rslice(I, 32, 64); k = s_add(d, IL)
    bad = hard or c.decide(s_or(s_le(ORDER, IL), s_eq(s_divmod(k, ORDER)[1], 0), s_eq(f['depth'], 255)))
    if not bad: g.point(k)
    r, e = derive(it, w, i)
    if r is None:
        c.oblige_by('refused only when there is no such child', bad, 'path', repr(e)); c.reach('hardened is refused' if hard else 'refused'); return
    if not c.oblige_by('hardened derivation is refused' if hard else 'refused when BIP-32 has no such child', not bad, 'path'): return
    check_node(it, g, r, k, False, dict(chain=IR, depth=s_add(f['depth'], 1), childnum=i, parentfp=fp(g, d), testnet=f['testnet'], vcn=f['vcn'])); c.reach('child')
@unit('C23', 'public and private derivation agree', contracts=CON, reach=['both', 'neither'])
def u2(it):
    g = world(it); c = it.c; d = secret(it, g); mk, f = node(it, g, d); w, v = mk(), mk(GP(g, d)); i, hard = index(it)
    if hard: return
    IL = val(rslice(macval(f['chain'], rcat(short(g, d), be4(i))), 0, 32)); k = s_add(d, IL)
    if not c.decide(s_eq(s_divmod(k, ORDER)[1], 0)): g.point(k); g.point(s_divmod(k, ORDER)[1])
    (a, e1), (b, e2) = derive(it, w, i), derive(it, v, i)
    if not c.oblige_by('both exist or neither', (a is None) == (b is None), 'path', '%r %r' % (e1, e2)): return
    if a is None: c.reach('neither'); return
    p, q = point_of(it, a), point_of(it, b); c.oblige('the same public point', g.is_inf(s_add(p.k, s_mul(-1, q.k))))
    for n in ('pubkey', 'chain', 'fingerprint', 'parentfp', 'depth', 'childnum', 'address', 'to_extended_key'):
        x, y = [it.call(it.getattr(z, n), []) for z in (a, b)]
        if is_int(x): c.oblige('the same ' + n, it.eqb(x, y))
        else: oblige_eq(it, 'the same ' + n, x, y)
    c.oblige('the same vcn', it.eqb(it.getattr(a, 'vcn'), it.getattr(b, 'vcn'))); c.reach('both')
@unit('C23', 'only indexes below 2**32', contracts=CON, reach=['end'])
def u3(it):
    g = world(it); c = it.c; d = secret(it, g); w = node(it, g, d if c.choose(2) else GP(g, d))[0](); i = c.fresh('index'); c.assume(s_or(s_lt(i, 0), s_le(1 << 32, i)))
    r, e = derive(it, w, i); c.oblige_by('refused', r is None, 'path')
@unit('C23', 'the master wallet of a seed', contracts=CON, reach=['end', 'refused'])
def u4(it):
    g = world(it); c = it.c; seed = whole(Sym('seed', c.fresh('len', 0))); c.inputs['seed'] = seed; I = macval(b'Bitcoin seed', seed)
    k = s_divmod(val(rslice(I, 0, 32)), ORDER)[1]; bad = c.decide(s_eq(k, 0))
    if not bad: g.point(k)
    kw = {}; testnet = False; vcn = None
    if c.choose(2): kw['testnet'] = testnet = bool(c.choose(2))
    if c.choose(2): kw['vcn'] = vcn = c.fresh('vcn', 0)
    try: w = it.call_body(HDWallet.from_master_seed, [seed], kw)
    except ProgExc as e: c.oblige_by('refused only when the key is zero', bad, 'path', repr(e.exc)); c.reach('refused'); return
    f = dict(chain=rslice(I, 32, 64), depth=0, childnum=0, parentfp=b'\0' * 4, testnet=testnet)
    if vcn is not None: f['vcn'] = s_divmod(vcn, 65536)[1]
    check_node(it, g, w, k, True, f)
