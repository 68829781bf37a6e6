"""C05: addresses"""
from .common import *
from nbc.util import key as K
@unit('C05', 'address payload is version, four hex digits of vcn, key hash', reach=['end'])
def u1(it):
    c = it.c
    pub = whole(Sym('pub', c.fresh('n', 0))); vcn = c.fresh('vcn'); c.inputs['pub'] = pub
    ver = whole(Sym('ver', 1)); c.inputs['ver'] = ver
    got = []
    def enc(it, a, kw): got.append(a[0]); it.c.trust('contract of encode_check (C02)'); return b58text(a[0])
    it.contracts[base58.encode_check] = enc
    default = c.choose(2)
    r = it.call(K.publickey_to_address, [pub, vcn] if default else [pub, vcn, ver])
    h = hashval('sha512', pub)
    kh = hashval('sha256', rcat(hashval('ripemd160', rslice(h, 0, 32)), hashval('ripemd160', rslice(h, 32, 64))))
    want = rcat(b'\0' if default else ver, mk_pos(16, 'hex', s_divmod(vcn, 65536)[1], 4), kh)
    oblige_eq(it, 'address is the checked text of version, vcn digits and key hash', r, b58text(want))
    for p in got:
        c.oblige('payload has 37 bytes', s_eq(rlen(p), 37))
        oblige_eq(it, 'hash is read back', rslice(p, 5, 37), kh)
        v = val(rslice(p, 1, 5), 16, 'hex')
        if v is None: c.oblige_by('vcn is read back', False, 'shape', 'not hex digits'); continue
        c.oblige('vcn is read back', s_eq(v, s_divmod(vcn, 65536)[1]))
