"""C02: Base58Check"""
from .common import *
def u_dec_contract(D):
    def k(it, a, kw):
        it.c.trust('contract of b58decode: some byte string, or ValueError (C01)')
        r = is_app(a[0], 'b58text')
        if r: return r[0]
        if it.c.choose(2): raise ProgExc(ValueError('bad character'))
        return D
    return k
@unit('C02', 'encode_check appends the first four bytes of the double SHA-256', contracts={base58.b58encode: k_b58encode}, reach=['end'])
def u1(it):
    n = it.c.fresh('n', 0); v = whole(Sym('v', n)); it.c.inputs['v'] = v
    r = it.call(base58.encode_check, [v])
    oblige_eq(it, 'text is the Base58 of payload and checksum', r, check_text(v))
@unit('C02', 'decode_check returns the payload exactly when the checksum matches', reach=['none', 'payload', 'short'])
def u2(it):
    c = it.c
    n = c.fresh('n', 0); D = whole(Sym('D', n)); c.inputs['D'] = D
    it.contracts[base58.b58decode] = u_dec_contract(D)
    text = whole(Sym('text', c.fresh('tn', 0))); 
    short = c.decide(s_lt(n, 4))
    if short: good = False; body = None
    else:
        body = rslice(D, 0, s_add(n, -4)); good = req(rslice(sha256d(body), 0, 4), rslice(D, s_add(n, -4), None), it.eq)
    try: r = it.call(base58.decode_check, [text])
    except ProgExc as e:
        c.oblige_by('only text that is not Base58 raises', isinstance(e.exc, ValueError), 'path'); return
    if short: c.reach('short')
    if r is None:
        c.oblige('a payload whose checksum matches is not dropped', s_not(good)); c.reach('none')
    else:
        c.oblige('no payload with a wrong checksum is returned', good)
        if body is None: return
        oblige_eq(it, 'the payload is the bytes before the checksum', r, body); c.reach('payload')
@unit('C02', 'decode_check inverts encode_check', contracts={base58.b58encode: k_b58encode, base58.b58decode: u_dec_contract(None)}, reach=['end'])
def u3(it):
    n = it.c.fresh('n', 0); v = whole(Sym('v', n)); it.c.inputs['v'] = v
    t = it.call(base58.encode_check, [v])
    r = it.call(base58.decode_check, [t])
    if r is None: it.c.oblige_by('the payload comes back', False, 'path', 'None returned'); return
    oblige_eq(it, 'the payload comes back', r, v)
