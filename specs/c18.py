"""C18: AES block encryption and decryption against FIPS-197, in the GF(2^8)-linear domain (pyvc/gf.py)."""
from .common import *
from pyvc import gf
from pyvc.gf import Word, ladd, lmul, lmap, var
from nbc.util.pyaes import aes as A
import struct, copy
AES = A.AES
# ---- FIPS-197, over lanes
def expand(key):
    nk = len(key) // 4; w = [key[4*i:4*i+4] for i in range(nk)]; rc = 1
    for i in range(nk, 4 * (nk + 7)):
        t = list(w[-1])
        if i % nk == 0:
            t = [lmap('S', x) for x in t[1:] + t[:1]]; t[0] = ladd(t[0], (rc, ())); rc = gf.MUL[2][rc]
        elif nk > 6 and i % nk == 4: t = [lmap('S', x) for x in t]
        w.append([ladd(x, y) for x, y in zip(w[i - nk], t)])
    return [sum(w[4*r:4*r+4], []) for r in range(nk + 7)]
def mix(s, m):
    out = []
    for c in range(4):
        a = s[4*c:4*c+4]
        out += [ladd(*[lmul(m[(j - i) % 4], a[j]) for j in range(4)]) for i in range(4)]
    return out
def add(s, k): return [ladd(x, y) for x, y in zip(s, k)]
def cipher(k, s):
    s = add(s, k[0])
    for r in range(1, len(k)):
        s = [lmap('S', s[(4 * (c + i) + i) % 16]) for c in range(4) for i in range(4)]
        if r < len(k) - 1: s = mix(s, (2, 3, 1, 1))
        s = add(s, k[r])
    return s
def inv_cipher(k, s):
    s = add(s, k[-1])
    for r in range(len(k) - 2, -1, -1):
        s = [lmap('Si', s[(4 * (c - i) + i) % 16]) for c in range(4) for i in range(4)]
        s = add(s, k[r])
        if r: s = mix(s, (14, 11, 13, 9))
    return s
# ---- library functions on symbolic bytes
def k_unpack(it, a, kw):
    it.c.trust('struct.unpack of big-endian integers; copy.copy of a list')
    f, b = a
    if not isinstance(b, gf.Bytes): return it.native(struct.unpack, a, kw)
    if not isinstance(f, str) or f[:1] not in '>!': raise Unsupported('struct format %r' % (f,))
    import re
    out = []; i = 0
    for n, ch in re.findall(r'(\d*)([a-zA-Z])', f[1:]):
        for _ in range(int(n or 1)):
            w = {'i': 4, 'I': 4, 'l': 4, 'L': 4, 'B': 1}.get(ch)
            if w is None: raise Unsupported('struct format %r' % (f,))
            ls = b.lanes[i:i+w]; i += w
            if len(ls) < w: raise ProgExc(struct.error('unpack requires more bytes'))
            out.append(Word(ls[::-1], frozenset([ls[0]]) if ch in 'il' else frozenset()))
    if i != len(b.lanes): raise ProgExc(struct.error('unpack requires a buffer of %d bytes' % i))
    return tuple(out)
def k_from_bytes(it, a, kw):
    b = a[0]; order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
    if not isinstance(b, gf.Bytes): return MODELS[int.from_bytes](it, a, kw)
    return Word(b.lanes[::-1] if order == 'big' else b.lanes, frozenset([b.lanes[0]]) if kw.get('signed') else frozenset())
from pyvc.models import MODELS
def k_copy(it, a, kw):
    if isinstance(a[0], list): return it.note_alloc(list(a[0]))
    raise Unsupported('copy of %r' % type(a[0]))
K = {struct.unpack: k_unpack, int.from_bytes: k_from_bytes, copy.copy: k_copy, copy.deepcopy: k_copy}
def lanes(it, x):
    out = []
    for e in it.to_list(x):
        w = gf.word(e)
        if w is None or len(w.lanes) > 1 or w.ext: return None
        out.append(w.lane(0))
    return out
def same_block(it, name, got, want):
    g = lanes(it, got)
    it.c.oblige_by(name + ': sixteen byte values', g is not None and len(g) == 16, 'GF(2^8) normal form')
    for i in range(16): it.c.oblige_by('%s: byte %d' % (name, i), g is not None and i < len(g) and g[i] == want[i], 'GF(2^8) normal form')
for _n in (16, 24, 32):
    @unit('C18', 'the %d-bit key cipher and its inverse are FIPS-197' % (8 * _n), contracts=K, reach=['end'])
    def u_aes(it, n=_n):
        c = it.c; key = [var('k%d' % i) for i in range(n)]; p = [var('p%d' % i) for i in range(16)]
        o = it.call(AES, [gf.Bytes(key)])
        k = expand(key); C = cipher(k, p); D = inv_cipher(k, p)
        blk = lambda ls: it.note_alloc([Word([x]) for x in ls])
        src = blk(p); keep = list(src)
        r = it.call(it.getattr(o, 'encrypt'), [src]); same_block(it, 'encryption', r, C)
        c.oblige_by('the argument is not changed', len(src) == 16 and all(x is y for x, y in zip(src, keep)), 'path')
        c.oblige_by('inverse cipher of the cipher (specification)', inv_cipher(k, C) == p and cipher(k, D) == p, 'GF(2^8) normal form')
        same_block(it, 'decryption of the ciphertext', it.call(it.getattr(o, 'decrypt'), [r]), p)
        same_block(it, 'decryption', it.call(it.getattr(o, 'decrypt'), [blk(p)]), D)
        same_block(it, 'encryption again', it.call(it.getattr(o, 'encrypt'), [blk(p)]), C)
        same_block(it, 'encryption of a byte string', it.call(it.getattr(o, 'encrypt'), [gf.Bytes(p)]), C)
        o2 = it.call(AES, [gf.Bytes([var('j%d' % i) for i in range(16)])])
        same_block(it, 'encryption after another object was made', it.call(it.getattr(o, 'encrypt'), [blk(p)]), C)
@unit('C18', 'keys and blocks of another length are refused', contracts=K, reach=['key', 'block'])
def u_len(it):
    c = it.c; n = c.fresh('n', 0)
    def refuses(name, f, x):
        try: it.call(f, [x]); ok = False
        except ProgExc as e: ok = isinstance(e.exc, ValueError)
        c.oblige_by(name, ok, 'path')
    if c.choose(2):
        c.assume(s_and(s_ne(n, 16), s_ne(n, 24), s_ne(n, 32))); refuses('the key is refused', AES, whole(Sym('key', n))); c.reach('key'); return
    c.assume(s_ne(n, 16)); c.reach('block')
    o = it.call(AES, [bytes(range((16, 24, 32)[c.choose(3)]))])
    for k in 'lb':
        refuses('encrypt refuses the block', it.getattr(o, 'encrypt'), whole(Sym('p', n), k)); refuses('decrypt refuses the block', it.getattr(o, 'decrypt'), whole(Sym('p', n), k))
