"""The wallet import format, abstractly (C03)."""
from .common import *
from nbc.util import key as KEY
from .c03 import k_encode_check
def wif(payload):
    c = core.CUR; n = 51 if c.quick(s_eq(rlen(payload), 32)) else 52
    t = app('wif', (payload,), n)
    if isinstance(t, Rope):
        ch = rindex(t, 0); c.fact(s_eq(ch, 53) if n == 51 else s_or(s_eq(ch, 75), s_eq(ch, 76)))      # unit "the first character of a private key's text" (C22)
    return t
def k_to(it, a, kw):
    it.c.trust('contracts of privkey_to_wif and privkey_from_wif (proved under C03)')
    if len(a) > 1 or kw: raise Unsupported('prefix')
    if not (it.c.quick(s_eq(rlen(a[0]), 32)) or it.c.quick(s_eq(rlen(a[0]), 33)) and it.c.quick(s_eq(rindex(a[0], 32), 1))): raise Unsupported('payload of a private key')
    return wif(a[0])
def k_from(it, a, kw):
    if len(a) > 1 or kw: raise Unsupported('prefix')
    r = is_app(a[0], 'wif')
    if r is None: raise Unsupported('another text')
    return rslice(r[0], 0, 32)
WIF = {KEY.privkey_to_wif: k_to, KEY.privkey_from_wif: k_from}
