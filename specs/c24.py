"""C24: extended keys"""
from .wallet import *
VER = {(False, False): 0x0488B21E, (False, True): 0x0488ADE4, (True, False): 0x043587CF, (True, True): 0x04358394}       # (testnet, private)
def be(v, n): return mk_pos(256, None, v, n)
def image(g, d, priv, f):
    return rcat(be(VER[f['testnet'], priv], 4), be(f['depth'], 1), f['parentfp'], be(f['childnum'], 4), f['chain'], rcat(b'\0', be32(d)) if priv else short(g, d))
def read(it, t):
    c = it.c; vcn = c.fresh('newvcn', 0); w = it.call_body(HDWallet.from_extended_key, [t], dict(vcn=vcn) if True else {}); return w, s_divmod(vcn, 65536)[1]
for priv in (True, False):
  for own in (True, False):
    if priv and not own: continue
    @unit('C24', 'an extended %s key of a wallet %s' % ('private' if priv else 'public', 'with its private key' if own else 'without the private key'), contracts=CON, reach=['end'])
    def u0(it, priv=priv, own=own):
        g = world(it); c = it.c; d = secret(it, g); mk, f = node(it, g, d if own else GP(g, d)); w = mk()
        t = it.call(it.getattr(w, 'to_extended_key'), [], dict(include_prv=True) if priv else dict(include_prv=False) if c.choose(2) else {})
        oblige_eq(it, 'the text is that of BIP-32', t, check_text(image(g, d, priv, f)))
        r, vcn = read(it, t); check_node(it, g, r, d, priv, dict(f, vcn=vcn))
@unit('C24', 'no extended private key without the private key', contracts=CON, reach=['end'])
def u1(it):
    g = world(it); c = it.c; d = secret(it, g); w = node(it, g, GP(g, d))[0]()
    try: it.call(it.getattr(w, 'to_extended_key'), [], dict(include_prv=True)); e = None
    except ProgExc as x: e = x.exc
    c.oblige_by('refused', e is not None, 'path')
@unit('C24', 'reading any text', contracts=CON, reach=['private', 'public', 'refused', 'not Base58', 'another length'])
def u2(it):
    g = world(it); c = it.c; text = whole(Sym('text', c.fresh('textlen', 1)), 's' if c.choose(2) else 'b')
    how = c.choose(4); n = c.fresh('len', 0) if how == 1 else 82; D = whole(Sym('payload', n)); c.inputs['payload'] = D
    if how == 1: c.assume(s_not(s_eq(n, 82)))
    def k_dec(it, a, kw):
        oblige_eq(it, 'the text given is decoded', a[0], text); c.trust('contract of b58decode (proved under C01)')
        if how == 0: raise ProgExc(ValueError('not Base58'))
        return D
    it.contracts[base58.b58decode] = k_dec
    ok = False
    if how >= 2:
        x = val(rslice(D, 46, 78)); ver = val(rslice(D, 0, 4)); pre = rindex(D, 45); isv = lambda p: s_or(s_eq(ver, VER[False, p]), s_eq(ver, VER[True, p]))
        ok = it.eqb(rslice(D, 78, 82), rslice(sha256d(rslice(D, 0, 78)), 0, 4))
        on = how == 2
        if on: t = secret(it, g, 'point'); c.assume(s_eq(x, g.X(t)))
        else:
            old = it.contracts[HD.numbertheory.square_root_mod_prime]
            def k_root(it, a, kw): raise ProgExc(HD.numbertheory.SquareRootError('no root'))     # x is not the x coordinate of a point
            it.contracts[HD.numbertheory.square_root_mod_prime] = k_root
        priv = c.decide(isv(True))
        if priv:
            if on: return
            ok = s_and(ok, s_eq(pre, 0), s_le(1, x), s_lt(x, ORDER))
        else: ok = s_and(ok, isv(False), s_or(s_eq(pre, 2), s_eq(pre, 3)), on, s_lt(x, g.p))
        ok = c.decide(ok)
        if ok and priv: t = x; g.point(x)
        if ok: testnet = c.decide(s_or(s_eq(ver, VER[True, False]), s_eq(ver, VER[True, True])))
    kw = {}
    if c.choose(2): kw['vcn'] = c.fresh('vcn', 0)
    try: w = it.call_body(HDWallet.from_extended_key, [text], kw)
    except ProgExc as e:
        c.oblige_by('refused only when it is not an extended key', not ok, 'path', repr(e.exc)); c.reach(['not Base58', 'another length', 'refused', 'refused'][how]); return
    if not c.oblige_by('refused when it is not an extended key', ok, 'path'): return
    if not priv and not c.decide(s_eq(s_divmod(g.Y(t), 2)[1], s_add(pre, -2))): t = s_mul(-1, t)        # the point with this x and this parity of y
    fpr = b'\0' * 4 if c.decide(s_eq(rindex(D, 4), 0)) else rslice(D, 5, 9)
    f = dict(testnet=testnet, depth=rindex(D, 4), parentfp=fpr, childnum=val(rslice(D, 9, 13)), chain=rslice(D, 13, 45))
    if kw: f['vcn'] = s_divmod(kw['vcn'], 65536)[1]
    check_node(it, g, w, t, priv, f); c.reach('private' if priv else 'public')
    if isinstance(fpr, Rope):
        a = is_app(it.call(it.getattr(w, 'to_extended_key'), [], dict(include_prv=priv)), 'b58text')
        if not c.oblige_by('written again, it is Base58', a is not None, 'path'): return
        c.oblige('written again, it has 82 bytes', s_eq(rlen(a[0]), 82))
        for i, j in ((0, 4), (4, 5), (5, 9), (9, 13), (13, 45), (45, 46), (46, 78)): oblige_eq(it, 'written again, it is the same', rslice(a[0], i, j), rslice(D, i, j))
        oblige_eq(it, 'written again, its checksum is right', rslice(a[0], 78, 82), rslice(sha256d(rslice(a[0], 0, 78)), 0, 4))
