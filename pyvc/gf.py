"""Words whose bytes are GF(2^8)-linear combinations of named values: the back end for AES.

A lane is const ^ sum(coef * atom) over GF(2^8); atoms are input bytes and the S-box or its inverse at a lane.
Equal normal forms are equal functions of the inputs, whatever the inputs are.  A table of the program is accepted as
k ^ c*x, k ^ c*S(x) or k ^ c*S^-1(x) only after all its 256 entries were compared (S is computed here from FIPS-197 5.1.1)."""
from . import core
from .core import Unsupported, ProgExc
from .interp import SObj
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = a << 1 ^ (0x11b if a & 128 else 0); b >>= 1
    return r
MUL = [[gmul(a, b) for b in range(256)] for a in range(256)]
def _s(x):
    i = next((y for y in range(256) if MUL[x][y] == 1), 0)
    r = 0x63
    for k in range(5): r ^= (i << k | i >> 8 - k) & 255
    return r
S = [_s(x) for x in range(256)]; SI = [S.index(x) for x in range(256)]
G = {'S': S, 'Si': SI, 'x': list(range(256))}
ATOMS, IDS = [], {}
def atom(key):
    if key not in IDS: IDS[key] = len(ATOMS); ATOMS.append(key)
    return IDS[key]
ZERO = (0, ())
def lin(const, d): return (const, tuple(sorted((a, c) for a, c in d.items() if c)))
def var(name): return (0, ((atom(('in', name)), 1),))
def ladd(*ls):
    k = 0; d = {}
    for c, t in ls:
        k ^= c
        for a, m in t: d[a] = d.get(a, 0) ^ m
    return lin(k, d)
def lmul(c, l): return lin(MUL[c][l[0]], {a: MUL[c][m] for a, m in l[1]})
def lmap(g, l):
    """S or S^-1 of a lane"""
    if g == 'x': return l
    if not l[1]: return (G[g][l[0]], ())
    if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
        k = ATOMS[l[1][0][0]]
        if k[0] in ('S', 'Si') and k[0] != g: return k[1]
    return (0, ((atom((g, l)), 1),))
_TAB = {}
def analyse(tab):
    """per byte lane: (k, c, g) with tab[x] lane = k ^ c*g(x) for all 256 x, or None"""
    key = tuple(tab)
    if key not in _TAB:
        out = []
        for ln in range(4):
            f = [(v >> 8 * ln) & 255 for v in tab]; hit = None
            for g in ('x', 'S', 'Si'):
                t = G[g]; k = f[t.index(0)]; c = f[t.index(1)] ^ k
                if all(f[x] == k ^ MUL[c][t[x]] for x in range(256)): hit = (k, c, g); break
            out.append(hit)
        _TAB[key] = out
    return _TAB[key]
class Word(SObj):
    """lanes[0] is the lowest byte; ext: sign bits filling everything above the lanes (set of lanes), or empty"""
    _cls = int
    def __init__(self, lanes, ext=frozenset()):
        lanes = list(lanes)
        while lanes and lanes[-1] == ZERO and not ext: lanes.pop()
        self.lanes, self.ext = tuple(lanes), ext
    def ckey(self): return ('gfw', self.lanes, self.ext)
    def lane(self, i):
        if i < len(self.lanes): return self.lanes[i]
        if self.ext: raise Unsupported('sign bits of a word used')
        return ZERO
    def s_eq(self, it, o):
        o = word(o)
        return o is not None and (self.lanes, self.ext) == (o.lanes, o.ext)
    def s_isinstance(self, it, t): return issubclass(int, t)
    def s_truth(self, it): raise Unsupported('truth of a symbolic word')
    def s_int(self, it, base): return self
    def s_binop(self, it, op, l, r): return binop(op, l, r)
    def s_lookup(self, it, tab):
        if len(self.lanes) > 1 or self.ext: raise Unsupported('table index wider than a byte')
        if len(tab) != 256: raise Unsupported('table of %d entries' % len(tab))
        if not all(isinstance(v, int) and 0 <= v < 2**32 for v in tab): raise Unsupported('table entries')
        x = self.lane(0); out = []
        for ln, h in enumerate(analyse(tab)):
            out.append((0, ((atom(('tab', hash(tuple(tab)), ln, x)), 1),)) if h is None else ladd((h[0], ()), lmul(h[1], lmap(h[2], x))))
        return Word(out)
def word(x):
    if isinstance(x, Word): return x
    if isinstance(x, int) and x >= 0:
        out = []
        while x: out.append((x & 255, ())); x >>= 8
        return Word(out)
def zipl(a, b):
    n = max(len(a.lanes), len(b.lanes))
    return [(a.lane(i), b.lane(i)) for i in range(n)]
def binop(op, l, r):
    if op in ('LShift', 'RShift', 'FloorDiv', 'Mod', 'Mult'):
        if op == 'Mult' and isinstance(l, int): l, r = r, l
        if not isinstance(l, Word) or not isinstance(r, int): raise Unsupported('word operator')
        if op in ('FloorDiv', 'Mod', 'Mult'):
            k = r.bit_length() - 1
            if r <= 0 or r != 1 << k: raise Unsupported('word operator')
            if op == 'Mod': return binop('BitAnd', l, r - 1)
            op, r = ('RShift' if op == 'FloorDiv' else 'LShift'), k
        if r < 0 or r % 8: raise Unsupported('shift by %r' % r)
        k = r // 8
        if op == 'LShift': return Word((ZERO,) * k + l.lanes, l.ext)
        return Word(l.lanes[k:], l.ext)
    if op == 'BitAnd':
        if isinstance(l, int): l, r = r, l
        if not isinstance(r, int) or r < 0: raise Unsupported('& of words')
        out = []; i = 0
        while r:
            m = r & 255
            if m not in (0, 255): raise Unsupported('mask')
            out.append(l.lane(i) if m else ZERO); r >>= 8; i += 1
        return Word(out)
    a, b = word(l), word(r)
    if a is None or b is None: raise Unsupported('word operator')
    if op == 'BitXor':
        n = max(len(a.lanes), len(b.lanes))
        if (a.ext and len(a.lanes) < n) or (b.ext and len(b.lanes) < n):
            raise Unsupported('sign bits of a word used')
        return Word([ladd(x, y) for x, y in zipl(a, b)], a.ext ^ b.ext)
    if op in ('BitOr', 'Add'):
        if a.ext or b.ext or any(x != ZERO and y != ZERO for x, y in zipl(a, b)): raise Unsupported('| of overlapping words')
        return Word([x if y == ZERO else y for x, y in zipl(a, b)])
    raise Unsupported('word operator %s' % op)
class Bytes(SObj):
    """byte string whose bytes are lanes"""
    _cls = bytes
    def __init__(self, lanes): self.lanes = list(lanes)
    def s_len(self, it): return len(self.lanes)
    def s_getitem(self, it, i):
        if isinstance(i, slice): return Bytes(self.lanes[i])
        if not isinstance(i, int): raise Unsupported('index')
        try: return Word([self.lanes[i]])
        except IndexError as e: raise ProgExc(e)
    def s_iter(self, it): return [Word([x]) for x in self.lanes]
    def s_truth(self, it): return bool(self.lanes)
    def s_isinstance(self, it, t): return issubclass(bytes, t)
