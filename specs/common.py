"""Contracts shared by several properties (each is proved by the property named)."""
from pyvc.spec import *
from nbc.util import base58
import hashlib

def text_bounds(lo, hi):
    w = 0
    while 58 ** w <= hi: w += 1
    return w if 58 ** (w - 1) <= lo else None

def b58text(x):
    """the Base58 text of x, as an uninterpreted injective function (C01: b58decode inverts it)"""
    if isinstance(x, bytes): return base58.b58encode(x)
    n, new = core.CUR.atom2(('b58len', x), 'b58len')
    if new: core.CUR.fact(s_le(rlen(x), n))
    return app('b58text', (x,), n)
from pyvc.models import app, hashval
def is_app(x, fn):
    s = segs_of(x) if isinstance(x, Rope) else []
    if len(s) == 1 and s[0][0] == 'A' and isinstance(s[0][1], App) and s[0][1].fn == fn and same(s[0][2], 0) and same(s[0][3], s[0][1].n):
        return s[0][1].args
    return None
def sha256d(x): return hashval('sha256', hashval('sha256', x))
def k_b58encode(it, a, kw): 
    it.c.trust('contract of b58encode (proved under C01)')
    x = a[0]
    if kind_of(x) != 'b': raise Unsupported('b58encode of text')
    return b58text(x)
def check_text(x): return b58text(rcat(x, rslice(sha256d(x), 0, 4)))
