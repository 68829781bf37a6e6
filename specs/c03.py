"""C03: wallet import format"""
from .common import *
from nbc.util import key as K
def k_encode_check(it, a, kw):
    """text of payload x: Base58 of x + checksum, x starting with 0x80, so its length and leading digit follow from the value"""
    c = it.c; c.trust('contract of encode_check / decode_check (proved under C01, C02)')
    x = a[0]; y = rcat(x, rslice(sha256d(x), 0, 4))
    n = c.concrete(rlen(y))
    if n is None: raise Unsupported('payload of unknown length')
    N = val(y); first = rindex(y, 0)
    if not isinstance(first, int) or first == 0: raise Unsupported('payload with unknown first byte')
    lo, hi = first << (8 * (n - 1)), ((first + 1) << (8 * (n - 1))) - 1
    if not c.quick(s_and(s_le(lo, N), s_le(N, hi))): raise Unsupported('payload value')
    w = text_bounds(lo, hi)
    if w is None: raise Unsupported('text length varies')
    t = mk_pos(58, 'b58', N, w)
    c.memo.setdefault('texts', []).append((t, x))
    return t
def k_decode_check(D):
    def k(it, a, kw):
        for t, x in it.c.memo.get('texts', []):
            if seqkey(t) == seqkey(a[0]) or it.c.quick(it.eqb(a[0], t)): return x
        if D is None: raise Unsupported('decode_check of another text')
        r = it.c.choose(3)
        if r == 0: raise ProgExc(ValueError('bad character'))
        if r == 1: return None
        return D
    return k
for comp in (False, True):
    def u(it, comp=comp):
        c = it.c
        key = whole(Sym('key', 32)); c.inputs['key'] = key
        payload = rcat(key, b'\x01') if comp else key
        it.contracts[base58.encode_check] = k_encode_check; it.contracts[base58.decode_check] = k_decode_check(None)
        t = it.call(K.privkey_to_wif, [payload])
        oblige_eq(it, 'the text is the checked encoding of 0x80, key and form byte', t, k_encode_check(it, [rcat(b'\x80', payload)], {}))
        r = it.call(K.privkey_from_wif, [t])
        oblige_eq(it, 'the same key is read back', r, key)
    unit('C03', 'WIF round trip, %s' % ('compressed' if comp else 'uncompressed'), reach=['end'])(u)
@unit('C03', 'malformed WIF is refused', reach=['33', '34', 'refused'])
def u2(it):
    c = it.c
    D = whole(Sym('D', c.fresh('n', 0))); n = rlen(D); c.inputs['D'] = D
    text = whole(Sym('text', c.fresh('tn', 1)), 'b' if c.choose(2) else 's')
    ch = text.segs[0][1].elem(0)
    it.contracts[base58.decode_check] = k_decode_check(D)
    try: r = it.call(K.privkey_from_wif, [text])
    except ProgExc as e:
        c.oblige_by('refusal is a ValueError', isinstance(e.exc, ValueError), 'path', repr(e.exc)); c.reach('refused'); return
    if r is None: c.oblige_by('a key is returned', False, 'path', 'None'); return
    D0 = D.segs[0][1]
    if c.decide(s_eq(n, 33)):
        c.oblige('prefix is 0x80', s_eq(D0.elem(0), 0x80)); c.oblige("text begins with '5'", s_eq(ch, ord('5')))
        oblige_eq(it, 'the key is the 32 bytes after the prefix', r, rslice(D, 1, 33)); c.reach('33')
    elif c.decide(s_eq(n, 34)):
        c.oblige('prefix is 0x80', s_eq(D0.elem(0), 0x80)); c.oblige('form byte is 1', s_eq(D0.elem(33), 1))
        c.oblige("text begins with 'K' or 'L'", s_or(s_eq(ch, ord('K')), s_eq(ch, ord('L'))))
        oblige_eq(it, 'the key is the 32 bytes after the prefix', r, rslice(D, 1, 33)); c.reach('34')
    else: c.oblige_by('no key from a payload of another length', False, 'path', 'accepted')
